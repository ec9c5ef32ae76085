// instr copies the library from a repository to a build directory and
// instruments it for the simulator:
//
//   - a scheduling point before each statement, and between the load and the
//     store of compound assignments to shared locations
//   - go statements, channel operations, package sync, runtime.NumCPU etc.,
//     time, the file functions of os and syscall and the global functions of
//     math/rand are replaced by their simulated versions
//
// The rewriting is purely syntactic and independent of how the library is written.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var (
	fset  = token.NewFileSet()
	sites []string
)

const (
	rtName   = "_vrt"
	syncName = "_vsync"
	osName   = "_vos"
	randName = "_vrand"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 5 {
		die("usage: instr REPO OUT VERIFRT SITES [PROGRAM...]")
	}
	repo, out, rtDir, sitesFile := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	ctx := build.Default
	ctx.ToolTags = append(ctx.ToolTags, "goexperiment.arenas")
	var dirs []string
	programs := map[string]bool{} // packages main that are instrumented, too
	for _, p := range os.Args[5:] {
		programs[filepath.Join(repo, p)] = true
	}
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		rel, _ := filepath.Rel(repo, p)
		if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" ||
			rel == "cmd" && len(programs) == 0 || rel == "tests") {
			return filepath.SkipDir
		}
		dirs = append(dirs, p)
		return nil
	})
	sort.Strings(dirs)
	ld := newLoader(repo, string(mod), &ctx)
	for _, d := range dirs {
		ld.load(d) // all are checked before the first one is rewritten
	}
	for _, d := range dirs {
		bp, err := ctx.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			die("%v", err)
		}
		if bp.Name == "main" {
			if !programs[d] {
				continue
			}
			bp.Name = "program"
		}
		rel, _ := filepath.Rel(repo, d)
		od := filepath.Join(out, rel)
		if err := os.MkdirAll(od, 0777); err != nil {
			die("%v", err)
		}
		for _, f := range bp.GoFiles {
			instrument(ld.load(d), filepath.Join(d, f), filepath.Join(od, f), filepath.Join(rel, f))
		}
		for _, l := range [][]string{bp.SFiles, bp.HFiles} {
			for _, f := range l {
				b, err := os.ReadFile(filepath.Join(d, f))
				if err != nil {
					die("%v", err)
				}
				os.WriteFile(filepath.Join(od, f), b, 0666)
			}
		}
		init := fmt.Sprintf("package %s\n\nimport %s \"verifrt\"\n\nfunc init() { %s.SetSites(SITES) }\n", bp.Name, rtName, rtName)
		os.WriteFile(filepath.Join(od, "zz_verif_init.go"), []byte(init), 0666)
	}
	// The number of sites is known now
	filepath.WalkDir(out, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Name() == "zz_verif_init.go" {
			b, _ := os.ReadFile(p)
			b = bytes.Replace(b, []byte("SITES"), []byte(fmt.Sprint(len(sites))), 1)
			os.WriteFile(p, b, 0666)
		}
		return nil
	})
	// Testing only requirements do no harm, they are never needed
	m := string(mod) + "\nrequire verifrt v0.0.0\n\nreplace verifrt => " + rtDir + "\n"
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(m), 0666); err != nil {
		die("%v", err)
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(out, "go.sum"), b, 0666)
	}
	if err := os.WriteFile(sitesFile, []byte(strings.Join(sites, "\n")+"\n"), 0666); err != nil {
		die("%v", err)
	}
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func sel(p, n string) ast.Expr {
	return &ast.SelectorExpr{X: id(p), Sel: id(n)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

// Replacements per import path: names that have a simulated version.
func set(pkg string, names string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(names) {
		m[n] = pkg + "." + n
	}
	return m
}

var replacements = map[string]map[string]string{
	"os": set(osName, `File OpenFile Create Open CreateTemp NewFile Stat Lstat Rename Remove RemoveAll
		Truncate Mkdir MkdirAll Chmod ReadFile WriteFile ReadDir SameFile Link`),
	"path/filepath": set(osName, `Glob`),
	"io/ioutil":     {"ReadFile": osName + ".ReadFile", "WriteFile": osName + ".WriteFile", "TempFile": osName + ".CreateTemp"},
	"syscall": {
		"Mmap": osName + ".Mmap", "Munmap": osName + ".Munmap", "Madvise": osName + ".Madvise",
		"Mlock": osName + ".Mlock", "Munlock": osName + ".Munlock", "Flock": osName + ".Flock",
		"Fsync": osName + ".Fsync", "Fdatasync": osName + ".Fsync", "Ftruncate": osName + ".Ftruncate", "Close": osName + ".CloseFD",
		"Rename": osName + ".Rename", "Unlink": osName + ".Remove", "Link": osName + ".Link",
		"Write": osName + ".WriteFD", "Pwrite": osName + ".Pwrite", "Read": osName + ".ReadFD", "Pread": osName + ".Pread",
		"Fstat": osName + ".Fstat",
	},
	"sync":         set(syncName, `Mutex RWMutex WaitGroup Once OnceFunc OnceValue Cond NewCond Pool Map Locker`),
	"runtime":      set(osName, `Gosched GOMAXPROCS`),
	"time":         set(osName, `Now Since Sleep`),
	"math/rand":    set(randName, `Seed Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 NormFloat64 ExpFloat64 Perm Shuffle Read`),
	"math/rand/v2": set(randName, `Int IntN Int32 Int32N Int64 Int64N Uint32 Uint32N Uint64 Uint64N Float32 Float64 NormFloat64 ExpFloat64 Perm Shuffle`),
}

func init() {
	replacements["runtime"]["NumCPU"] = rtName + ".NumCPU"
	replacements["time"]["After"] = syncName + ".After"
}

type inst struct {
	file    *ast.File
	info    *types.Info
	rel     string
	imports map[string]string // local name -> path
	used    map[string]bool   // simulated packages
	funcs   []ast.Node        // enclosing functions
	tmp     int
	program bool // package main
}

// Replacements in programs only.
var programReplacements = map[string]map[string]string{
	"os":  set(osName, `Exit Stdout Stderr`),
	"fmt": set(osName, `Print Printf Println`),
	"log": set(osName, `Fatal Fatalf Fatalln`),
}

func (in *inst) site(pos token.Pos) ast.Expr {
	p := fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s:%d", in.rel, p.Line))
	in.used[rtName] = true
	return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(len(sites) - 1)}
}

func (in *inst) yield(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(sel(rtName, "Yield"), in.site(pos))}
}

func instrument(pk *pkg, src, dst, rel string) {
	f := pk.files[src]
	in := &inst{file: f, info: pk.info, rel: rel, imports: map[string]string{}, used: map[string]bool{}}
	if in.program = f.Name.Name == "main"; in.program {
		f.Name = id("program")
		for _, d := range f.Decls {
			if m, ok := d.(*ast.FuncDecl); ok && m.Recv == nil && m.Name.Name == "main" {
				m.Name = id("Main")
			}
		}
	}
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "`\"")
		name := path[strings.LastIndex(path, "/")+1:]
		if regexp.MustCompile(`^v[0-9]+$`).MatchString(name) {
			p := strings.Split(path, "/")
			name = p[len(p)-2]
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		in.imports[name] = path
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Type != nil {
				in.walk(d.Type)
			}
			if d.Recv != nil {
				in.walk(d.Recv)
			}
			if d.Body != nil {
				in.funcs = append(in.funcs, d)
				in.block(&d.Body.List)
				in.funcs = nil
			}
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				in.walk(d)
			}
		}
	}
	in.fixImports()
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		die("%s: %v", rel, err)
	}
	if err := os.WriteFile(dst, buf.Bytes(), 0666); err != nil {
		die("%v", err)
	}
}

// fixImports adds the simulated packages and drops imports that are not used anymore.
func (in *inst) fixImports() {
	stillUsed := map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
				stillUsed[x.Name] = true
			}
		}
		return true
	})
	var add []ast.Spec
	for _, p := range [][2]string{{rtName, "verifrt"}, {syncName, "verifrt/simsync"}, {osName, "verifrt/simos"}, {randName, "verifrt/simrand"}} {
		if in.used[p[0]] {
			add = append(add, &ast.ImportSpec{Name: id(p[0]), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + p[1] + `"`}})
		}
	}
	var decls []ast.Decl
	for _, d := range in.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			path := strings.Trim(im.Path.Value, "`\"")
			if replacements[path] != nil || in.program && programReplacements[path] != nil {
				used := false
				for n, p := range in.imports {
					if p == path && (stillUsed[n] || n == "_" || n == ".") {
						used = true
					}
				}
				if !used {
					continue
				}
			}
			keep = append(keep, s)
		}
		for _, s := range keep {
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
		}
	}
	var first []ast.Decl
	for _, s := range add {
		first = append(first, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	in.file.Decls = append(first, decls...)
	in.file.Imports = nil
}

// block instruments a list of statements.
func (in *inst) block(list *[]ast.Stmt) {
	var res []ast.Stmt
	for _, s := range *list {
		pos := s.Pos()
		if _, ok := s.(*ast.EmptyStmt); ok {
			res = append(res, s)
			continue
		}
		s = in.stmt(s)
		res = append(res, in.yield(pos), s)
	}
	*list = res
}

func (in *inst) body(b *ast.BlockStmt) {
	in.block(&b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{in.yield(b.Pos())}
	}
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(&s.List)
	case *ast.LabeledStmt:
		s.Stmt = in.stmt(s.Stmt)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		s.Cond = in.expr(s.Cond)
		in.block(&s.Body.List)
		if s.Else != nil {
			s.Else = in.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = in.simple(s.Post)
		}
		in.body(s.Body)
	case *ast.RangeStmt:
		if in.isChan(s.X) {
			return in.rangeChan(s)
		}
		if s.X != nil {
			s.X = in.expr(s.X)
		}
		if s.Key != nil {
			s.Key = in.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = in.expr(s.Value)
		}
		in.body(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		s.Assign = in.simple(s.Assign)
		in.clauses(s.Body)
	case *ast.SelectStmt:
		return in.selectStmt(s)
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.SendStmt:
		in.used[syncName] = true
		return &ast.ExprStmt{X: call(sel(syncName, "Send"), in.expr(s.Chan), in.expr(s.Value))}
	case *ast.DeferStmt:
		s.Call = in.expr(s.Call).(*ast.CallExpr)
	case *ast.IncDecStmt:
		if in.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return in.split(s.X, s.Pos(), func(l ast.Expr) ast.Expr {
				return &ast.BinaryExpr{X: l, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			})
		}
		return in.simple(s)
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && in.shared(s.Lhs[0]) {
			if op, ok := ops[s.Tok]; ok {
				rhs := in.expr(s.Rhs[0])
				return in.split(s.Lhs[0], s.Pos(), func(l ast.Expr) ast.Expr {
					return &ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: rhs}}
				})
			}
			if c, ok := s.Rhs[0].(*ast.CallExpr); ok && s.Tok == token.ASSIGN && splittable(c) {
				t := in.temp()
				y := in.yield(s.Pos())
				return &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(c)}},
					y,
					&ast.AssignStmt{Lhs: []ast.Expr{in.expr(s.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
				}}
			}
		}
		return in.simple(s)
	default:
		return in.simple(s)
	}
	return s
}

var ops = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (in *inst) temp() string {
	in.tmp++
	return fmt.Sprintf("_vt%d", in.tmp)
}

// splittable: a call whose result has a definite type.
func splittable(c *ast.CallExpr) bool {
	if f, ok := c.Fun.(*ast.Ident); ok {
		switch f.Name {
		case "min", "max", "real", "imag", "complex", "len", "cap", "make", "new":
			return false
		}
		return f.Obj != nil || f.Name == "append"
	}
	_, ok := c.Fun.(*ast.SelectorExpr)
	return ok
}

// shared tells whether e is a location that other threads may access and that
// may be evaluated twice.
func (in *inst) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		for x := e.X; ; {
			switch y := x.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				x = y.X
			default:
				return false
			}
		}
	case *ast.StarExpr:
		_, ok := e.X.(*ast.Ident)
		return ok
	case *ast.Ident:
		if e.Name == "_" || len(in.funcs) == 0 {
			return false
		}
		if e.Obj == nil {
			return true // declared in another file of the package
		}
		d, ok := e.Obj.Decl.(ast.Node)
		if !ok {
			return false
		}
		f := in.funcs[len(in.funcs)-1]
		return d.Pos() < f.Pos() || d.Pos() >= f.End()
	}
	return false
}

func (in *inst) split(loc ast.Expr, pos token.Pos, val func(ast.Expr) ast.Expr) ast.Stmt {
	t := in.temp()
	y := in.yield(pos)
	loc = in.expr(loc)
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{loc}},
		y,
		&ast.AssignStmt{Lhs: []ast.Expr{loc}, Tok: token.ASSIGN, Rhs: []ast.Expr{val(id(t))}},
	}}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = in.expr(cc.List[i])
		}
		in.block(&cc.Body)
	}
}

// goStmt evaluates the function and its arguments before the thread starts.
func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	in.used[rtName] = true
	c := in.expr(s.Call).(*ast.CallExpr)
	var pre []ast.Stmt
	if _, lit := c.Fun.(*ast.FuncLit); !lit {
		if x, ok := c.Fun.(*ast.Ident); !ok || x.Obj == nil || x.Obj.Kind != ast.Fun {
			if _, gen := c.Fun.(*ast.IndexExpr); !gen {
				t := in.temp()
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
				c.Fun = id(t)
			}
		}
	}
	// Constants keep their (untyped) kind
	for i, a := range c.Args {
		if _, lit := a.(*ast.BasicLit); lit {
			continue
		}
		if x, ok := a.(*ast.Ident); ok && (x.Name == "nil" || x.Name == "true" || x.Name == "false") {
			continue
		}
		t := in.temp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		c.Args[i] = id(t)
	}
	g := &ast.ExprStmt{X: call(sel(rtName, "Go"), &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}},
	})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

// isChan tells whether e is, by its type or else its declaration, a channel.
func (in *inst) isChan(e ast.Expr) bool {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil && tv.Type != types.Typ[types.Invalid] {
		return isChanType(tv.Type)
	}
	x, ok := e.(*ast.Ident)
	if !ok || x.Obj == nil {
		return false
	}
	isT := func(t ast.Expr) bool { _, ok := t.(*ast.ChanType); return ok }
	isMake := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return false
		}
		f, ok := c.Fun.(*ast.Ident)
		return ok && f.Name == "make" && isT(c.Args[0])
	}
	switch d := x.Obj.Decl.(type) {
	case *ast.Field:
		return isT(d.Type)
	case *ast.ValueSpec:
		if d.Type != nil {
			return isT(d.Type)
		}
		for i, n := range d.Names {
			if n.Name == x.Name && i < len(d.Values) {
				return isMake(d.Values[i])
			}
		}
	case *ast.AssignStmt:
		for i, l := range d.Lhs {
			if n, ok := l.(*ast.Ident); ok && n.Name == x.Name && i < len(d.Rhs) {
				return isMake(d.Rhs[i])
			}
		}
	}
	return false
}

func (in *inst) rangeChan(s *ast.RangeStmt) ast.Stmt {
	in.used[syncName] = true
	v := ast.Expr(id("_"))
	if s.Key != nil {
		v = s.Key
		if s.Tok == token.ASSIGN {
			v = in.expr(v)
		}
	}
	ok, r, c := in.temp(), in.temp(), in.temp()
	ch := in.expr(s.X)
	in.body(s.Body)
	first := ast.Stmt(&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: s.Tok, Rhs: []ast.Expr{id(r)}})
	if s.Key == nil || s.Tok == token.ILLEGAL {
		first = &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(r)}}
	}
	list := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(r), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(syncName, "Recv2"), id(c))}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		first,
	}
	// The body has a scope of its own
	list = append(list, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
		Cond: id("true"), Body: &ast.BlockStmt{List: list},
	}
}

// selectStmt makes a switch over the chosen case.
func (in *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	in.used[syncName] = true
	block := "true"
	var vars, vals []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		var list []ast.Expr
		if cc.Comm == nil {
			block = "false"
		} else {
			t := in.temp()
			recv := func(e ast.Expr) ast.Expr {
				for {
					p, ok := e.(*ast.ParenExpr)
					if !ok {
						break
					}
					e = p.X
				}
				return call(sel(syncName, "RecvCase"), in.expr(e.(*ast.UnaryExpr).X))
			}
			var v ast.Expr
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				v = call(sel(syncName, "SendCase"), in.expr(m.Chan), in.expr(m.Value))
			case *ast.ExprStmt:
				v = recv(m.X)
			case *ast.AssignStmt:
				v = recv(m.Rhs[0])
				rhs := []ast.Expr{call(sel(t, "V"))}
				if len(m.Lhs) == 2 {
					rhs = append(rhs, call(sel(t, "Ok")))
				}
				in.exprs(m.Lhs)
				pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
			}
			vars, vals = append(vars, id(t)), append(vals, v)
			list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}}
			n++
		}
		in.block(&cc.Body)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: list, Body: append(pre, cc.Body...)})
	}
	if n > 0 {
		sw.Init = &ast.AssignStmt{Lhs: vars, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = call(sel(syncName, "Select"), append([]ast.Expr{id(block)}, vars...)...)
	return sw
}

// simple instruments the expressions of a statement.
func (in *inst) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.used[syncName] = true
				s.Rhs[0] = call(sel(syncName, "Recv2"), in.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = in.expr(s.Lhs[i])
				}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = in.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = in.expr(s.Rhs[i])
		}
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = in.expr(s.Results[i])
		}
	case *ast.IncDecStmt:
		s.X = in.expr(s.X)
	case *ast.SendStmt:
		return in.stmt(s)
	case *ast.DeclStmt:
		in.walk(s.Decl)
	}
	return s
}

// walk instruments the expressions below a node that is not an expression.
func (in *inst) walk(n ast.Node) {
	switch n := n.(type) {
	case *ast.GenDecl:
		for _, s := range n.Specs {
			switch s := s.(type) {
			case *ast.ValueSpec:
				if s.Type != nil {
					s.Type = in.expr(s.Type)
				}
				for i := range s.Values {
					s.Values[i] = in.expr(s.Values[i])
				}
			case *ast.TypeSpec:
				s.Type = in.expr(s.Type)
			}
		}
	case *ast.FuncType:
		in.fields(n.TypeParams)
		in.fields(n.Params)
		in.fields(n.Results)
	case *ast.FieldList:
		in.fields(n)
	}
}

func (in *inst) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		if f.Type != nil {
			f.Type = in.expr(f.Type)
		}
	}
}

func (in *inst) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

// expr instruments an expression and returns its replacement.
func (in *inst) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		in.walk(e.Type)
		in.funcs = append(in.funcs, e)
		in.block(&e.Body.List)
		in.funcs = in.funcs[:len(in.funcs)-1]
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Obj == nil {
			r := replacements[in.imports[x.Name]][e.Sel.Name]
			if r == "" && in.program {
				r = programReplacements[in.imports[x.Name]][e.Sel.Name]
			}
			if r != "" {
				p := strings.Split(r, ".")
				in.used[p[0]] = true
				return sel(p[0], p[1])
			}
		}
		e.X = in.expr(e.X)
	case *ast.CallExpr:
		if f, ok := e.Fun.(*ast.Ident); ok && f.Obj == nil && len(e.Args) == 1 {
			if f.Name == "close" {
				in.used[syncName] = true
				return call(sel(syncName, "Close"), in.expr(e.Args[0]))
			}
			if f.Name == "len" && in.isChan(e.Args[0]) {
				in.used[syncName] = true
				return call(sel(syncName, "Len"), in.expr(e.Args[0]))
			}
		}
		e.Fun = in.expr(e.Fun)
		in.exprs(e.Args)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			in.used[syncName] = true
			return call(sel(syncName, "Recv"), in.expr(e.X))
		}
		e.X = in.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.StarExpr:
		e.X = in.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = in.expr(e.X), in.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = in.expr(e.X)
		in.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = in.expr(e.X)
		if e.Low != nil {
			e.Low = in.expr(e.Low)
		}
		if e.High != nil {
			e.High = in.expr(e.High)
		}
		if e.Max != nil {
			e.Max = in.expr(e.Max)
		}
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
		if e.Type != nil {
			e.Type = in.expr(e.Type)
		}
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = in.expr(e.Type)
		}
		in.exprs(e.Elts)
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = in.expr(e.Key)
		}
		e.Value = in.expr(e.Value)
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = in.expr(e.Len)
		}
		e.Elt = in.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = in.expr(e.Key), in.expr(e.Value)
	case *ast.ChanType:
		e.Value = in.expr(e.Value)
	case *ast.FuncType:
		in.walk(e)
	case *ast.StructType:
		in.fields(e.Fields)
	case *ast.InterfaceType:
		in.fields(e.Methods)
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = in.expr(e.Elt)
		}
	}
	return e
}

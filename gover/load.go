package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Packages whose source is loaded (and which may be inlined). Everything else
// is known by its export data only.
var sourcePkgs = map[string]bool{
	"image": true, "image/color": true,
	"golang.org/x/image/font": true, "golang.org/x/image/math/fixed": true,
}

const repoPrefix = "github.com/golang/freetype"

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Imports                 []string
	ImportMap               map[string]string
	Error                   *struct{ Err string }
}

type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path
	tpkgs map[string]*types.Package
	lines map[string][]string
	repo  string
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"GOFLAGS=-modfile=/opt/vp/mod/freetype.mod -overlay=/opt/vp/mod/overlay.json -buildvcs=false",
		"GO111MODULE=on", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

// load type-checks the repository's packages at dir from source and builds SSA.
func load(dir string) (*Program, error) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Imports,ImportMap,Error", ".", "./raster", "./truetype")
	cmd.Dir = dir
	cmd.Env = repoEnv()
	if dir != "/repo" { // a scratch copy: redirect the overlay
		ov, _ := os.ReadFile("/opt/vp/mod/overlay.json")
		f := filepath.Join(os.TempDir(), fmt.Sprintf("gover-overlay-%d.json", os.Getpid()))
		os.WriteFile(f, []byte(strings.ReplaceAll(string(ov), "\"/repo/", "\""+dir+"/")), 0o644)
		defer os.Remove(f)
		for i, e := range cmd.Env {
			if strings.HasPrefix(e, "GOFLAGS=") {
				cmd.Env[i] = strings.Replace(e, "/opt/vp/mod/overlay.json", f, 1)
			}
		}
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	all := map[string]*listPkg{}
	var order []string
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		all[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	pr := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, lines: map[string][]string{}, repo: dir}
	pr.prog = ssa.NewProgram(pr.fset, ssa.NaiveForm|ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if t, ok := pr.tpkgs[path]; ok {
			return t, nil
		}
		return nil, fmt.Errorf("package %s not loaded", path)
	})
	isSrc := func(p string) bool {
		return sourcePkgs[p] || p == repoPrefix || strings.HasPrefix(p, repoPrefix+"/")
	}
	type srcPkg struct {
		tp    *types.Package
		files []*ast.File
		info  *types.Info
	}
	var srcs []srcPkg
	for _, path := range order { // dependency order
		lp := all[path]
		if path == "unsafe" {
			continue
		}
		if !isSrc(path) {
			f, err := os.Open(lp.Export)
			if err != nil {
				return nil, err
			}
			r, err := gcexportdata.NewReader(f)
			if err != nil {
				return nil, err
			}
			_, err = gcexportdata.Read(r, pr.fset, pr.tpkgs, path)
			f.Close()
			if err != nil {
				return nil, err
			}
			continue
		}
		var files []*ast.File
		for _, f := range lp.GoFiles {
			fn := f
			if !filepath.IsAbs(fn) {
				fn = filepath.Join(lp.Dir, f)
			}
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			pr.lines[fn] = strings.Split(string(src), "\n")
			af, err := parser.ParseFile(pr.fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		conf := &types.Config{Importer: imp, GoVersion: "go1.21", Sizes: types.SizesFor("gc", "amd64")}
		if !strings.HasPrefix(path, repoPrefix) {
			conf.GoVersion = ""
			conf.Error = func(error) {}
		}
		tp, err := conf.Check(path, pr.fset, files, info)
		if err != nil && strings.HasPrefix(path, repoPrefix) {
			return nil, fmt.Errorf("type-check %s: %v", path, err)
		}
		pr.tpkgs[path] = tp
		srcs = append(srcs, srcPkg{tp, files, info})
	}
	created := map[*types.Package]bool{}
	for _, s := range srcs {
		created[s.tp] = true
	}
	var createDeps func(t *types.Package)
	createDeps = func(t *types.Package) {
		for _, d := range t.Imports() {
			if !created[d] {
				created[d] = true
				createDeps(d)
				pr.prog.CreatePackage(d, nil, nil, true)
			}
		}
	}
	for _, s := range srcs {
		createDeps(s.tp)
		p := pr.prog.CreatePackage(s.tp, s.files, s.info, true)
		pr.pkgs[s.tp.Path()] = p
	}
	pr.prog.Build()
	return pr, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// allFuncs returns the repository's source functions in a stable order.
func (pr *Program) allFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(pr.prog) {
		if f.Blocks != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

func shortPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, repoPrefix+"/"), "github.com/golang/")
}

// funcName is the contract key of a function: raster.(*Rasterizer).Add1, freetype.Foo.
func funcName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, repoPrefix+"/", "")
	s = strings.ReplaceAll(s, "github.com/golang/", "")
	// (*raster.Rasterizer).Add1 -> raster.(*Rasterizer).Add1
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		recv, meth := s[1:i], s[i+1:]
		star := ""
		if strings.HasPrefix(recv, "*") {
			star, recv = "*", recv[1:]
		}
		if j := strings.LastIndex(recv, "."); j >= 0 {
			if star == "" {
				return recv[:j] + "." + recv[j+1:] + meth
			}
			return recv[:j] + ".(*" + recv[j+1:] + ")" + meth
		}
	}
	return s
}

func (pr *Program) srcLine(p token.Pos) (string, string) {
	if !p.IsValid() {
		return "?", ""
	}
	q := pr.fset.Position(p)
	l := ""
	if ls := pr.lines[q.Filename]; q.Line-1 < len(ls) && q.Line > 0 {
		l = strings.TrimSpace(ls[q.Line-1])
	}
	fn := strings.TrimPrefix(q.Filename, pr.repo+"/")
	return fmt.Sprintf("%s:%d", fn, q.Line), l
}

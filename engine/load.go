package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Loaded is the program shared by all machines.
type Loaded struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  []*packages.Package
	repo  string
	verif string

	mu       sync.Mutex
	funcs    map[*ssa.Function]*Func
	rtypes   typeutil.Map
	nrt      int
	globals  map[*ssa.Global]int
	inits    map[*ssa.Package]map[*ssa.Global]bool
	failed   map[*ssa.Package]bool
	gl       []*ssa.Global
	redirect map[string]*ssa.Function
	intr     map[string]intrinsic
	sizes    sync.Map

	initOrder []*ssa.Package
	rtErr     *RType
	rtStr     *RType
	rtInt     *RType
	harness   *ssa.Package
	modPath   string
	overlays  map[string]string // path -> verif source, for the native replay
}

type intrinsic func(m *Machine, in *Ins, a []Val) Val

func goroot() string {
	if r := os.Getenv("GOROOT"); r != "" {
		return r
	}
	return "/opt/veriftools/go1.27.3"
}

// modDir finds the directory of a module in the module cache used by /repo.
func modDir(repo, mod string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(strings.TrimSpace(l))
		if len(f) > 0 && f[0] == "require" {
			f = f[1:]
		}
		if len(f) >= 2 && f[0] == mod {
			cache := os.Getenv("GOMODCACHE")
			if cache == "" {
				cache = "/root/go/pkg/mod"
			}
			return filepath.Join(cache, mod+"@"+f[1])
		}
	}
	return ""
}

// virtualDirs maps directories under /repo to directories in /verif.
var virtualDirs = map[string]string{
	"verifharness": "harness",
	"verifsym":     "sym",
	"verifrt":      "rt",
}

// programDirs maps directories under /repo to the main packages of /repo that they hold as a
// package which can be imported.
var programDirs = map[string]string{
	"verifcsvequals": "cmd/csvequals",
}

// programFiles are the files of programDirs by their virtual paths.
func programFiles(repo string) (map[string][]byte, error) {
	r := map[string][]byte{}
	for v, d := range programDirs {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			r[filepath.Join(repo, v, filepath.Base(f))] = packageClause.ReplaceAll(b, []byte("package "+v))
		}
		r[filepath.Join(repo, v, "verif_main.go")] = []byte("package " + v + "\n\n// Main is the program.\nfunc Main() { main() }\n")
	}
	return r, nil
}

var packageClause = regexp.MustCompile(`(?m)^package main\b`)

// Load loads /repo together with the harnesses.
func Load(repo, verif string) (*Loaded, error) {
	overlay := map[string][]byte{}
	l := &Loaded{
		repo: repo, verif: verif,
		funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{},
		redirect: map[string]*ssa.Function{}, overlays: map[string]string{},
	}
	for v, d := range virtualDirs {
		fs, _ := filepath.Glob(filepath.Join(verif, d, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			p := filepath.Join(repo, v, filepath.Base(f))
			overlay[p] = b
			l.overlays[p] = f
		}
	}
	pf, err := programFiles(repo)
	if err != nil {
		return nil, err
	}
	for p, b := range pf {
		overlay[p] = b
	}
	// Dependencies whose files are replaced by models: a copy of the module
	// with the file exchanged, reached through a copy of go.mod.
	scratch, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	for mod, m := range map[string]map[string]string{
		"github.com/puzpuzpuz/xsync/v3": {"mapof.go": "models/xsync_mapof.go.txt"},
	} {
		d := modDir(repo, mod)
		if d == "" {
			continue
		}
		to := filepath.Join(scratch, "m", filepath.Base(filepath.Dir(mod))+"-"+filepath.Base(mod))
		if err := os.MkdirAll(to, 0o755); err != nil {
			return nil, err
		}
		fs, _ := filepath.Glob(filepath.Join(d, "*"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil || strings.HasSuffix(f, "_test.go") {
				continue
			}
			if src, ok := m[filepath.Base(f)]; ok {
				if b, err = os.ReadFile(filepath.Join(verif, src)); err != nil {
					return nil, err
				}
			}
			if err := os.WriteFile(filepath.Join(to, filepath.Base(f)), b, 0o644); err != nil {
				return nil, err
			}
		}
		gomod = append(gomod, []byte("\nreplace "+mod+" => "+to+"\n")...)
	}
	modfile := filepath.Join(scratch, "go.mod")
	if err := os.WriteFile(modfile, gomod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(scratch, "go.sum"), gosum, 0o644); err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     os.Environ(),

		BuildFlags: []string{"-modfile=" + modfile},
	}
	pkgs, err := packages.Load(cfg, "./verifharness")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	l.fset = prog.Fset
	l.pkgs = pkgs
	for _, p := range spkgs {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), "/verifharness") {
			l.harness = p
			l.modPath = strings.TrimSuffix(p.Pkg.Path(), "/verifharness")
		}
	}
	if l.harness == nil {
		return nil, fmt.Errorf("no harness package")
	}
	// Dependency order of package initialisation.
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var names []string
		for n := range p.Imports {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			visit(p.Imports[n])
		}
		if sp := prog.Package(p.Types); sp != nil {
			l.initOrder = append(l.initOrder, sp)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	// Redirects.
	for _, p := range l.initOrder {
		if !strings.HasSuffix(p.Pkg.Path(), "/verifrt") {
			continue
		}
		for pp := range seen {
			if pp.Types != p.Pkg {
				continue
			}
			for _, f := range pp.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if !strings.HasPrefix(c.Text, "//gosym:replace ") {
							continue
						}
						name := strings.TrimSpace(strings.TrimPrefix(c.Text, "//gosym:replace "))
						fn := p.Func(fd.Name.Name)
						if fn == nil {
							return nil, fmt.Errorf("no model function %s", fd.Name.Name)
						}
						l.redirect[name] = fn
					}
				}
			}
		}
		if o := p.Pkg.Scope().Lookup("RuntimeError"); o != nil {
			l.rtErr = l.rtype(o.Type())
		}
	}
	if l.rtErr == nil {
		return nil, fmt.Errorf("no RuntimeError model")
	}
	l.rtStr = l.rtype(types.Typ[types.String])
	l.rtInt = l.rtype(types.Typ[types.Int])
	l.intr = intrinsics()
	return l, nil
}

// rtype returns the canonical runtime type of t.
func (l *Loaded) rtype(t types.Type) *RType {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.rtypeLocked(t)
}

func (l *Loaded) rtypeLocked(t types.Type) *RType {
	if r, ok := l.rtypes.At(t).(*RType); ok {
		return r
	}
	l.nrt++
	r := &RType{t: t, id: l.nrt, methods: map[string]*Func{}, impl: map[*RType]bool{}, size: l.sizeOf(t), agg: isAgg(t)}
	l.rtypes.Set(t, r)
	return r
}

// method finds the implementation of method name of dynamic type r.
func (l *Loaded) method(r *RType, fn *types.Func) *Func {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := fn.Id()
	if f, ok := r.methods[k]; ok {
		return f
	}
	f := l.prog.LookupMethod(r.t, fn.Pkg(), fn.Name())
	if f == nil {
		panic(unsup("no method " + fn.Name() + " on " + r.t.String()))
	}
	c := l.funcLocked(f)
	r.methods[k] = c
	return c
}

// implements reports whether r implements the interface type it.
func (l *Loaded) implements(r *RType, it *types.Interface, irt *RType) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if v, ok := r.impl[irt]; ok {
		return v
	}
	v := types.Implements(r.t, it)
	r.impl[irt] = v
	return v
}

func (l *Loaded) fn(f *ssa.Function) *Func {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.funcLocked(f)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (l *Loaded) funcLocked(f *ssa.Function) *Func {
	if c, ok := l.funcs[f]; ok {
		return c
	}
	name := fnName(f)
	c := &Func{ssa: f, name: name}
	if f.Pkg != nil {
		c.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		c.pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		c.pkg = f.Object().Pkg().Path()
	}
	c.isRT = strings.HasSuffix(c.pkg, "/verifrt") || strings.HasSuffix(c.pkg, "/verifsym")
	c.noRace = c.isRT || strings.HasPrefix(c.pkg, "github.com/puzpuzpuz/xsync")
	c.isRepo = strings.HasPrefix(c.pkg, l.modPath) && !c.isRT && !strings.HasSuffix(c.pkg, "/verifharness") && l.modPath != ""
	l.funcs[f] = c
	if n, ok := l.intr[name]; ok {
		c.nat = n
		c.syn = syncNames[name]
		return c
	}
	if r, ok := l.redirect[name]; ok && r != f {
		c.redir = r
	}
	return c
}

func (l *Loaded) globalIdx(g *ssa.Global) int {
	if i, ok := l.globals[g]; ok {
		return i
	}
	i := len(l.gl)
	l.globals[g] = i
	l.gl = append(l.gl, g)
	return i
}

func (l *Loaded) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := l.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, l.repo+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	if r := goroot() + "/src/"; strings.HasPrefix(f, r) {
		f = f[len(r):]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	repoMod = "github.com/yields/ant"
	rtVT    = repoMod + "/internal/zzvt"
)

// Engine holds the program shared by all workers.
type Engine struct {
	prog       *ssa.Program
	fset       *token.FileSet
	pkgs       []*packages.Package
	stats      SolverStats
	redirects  map[string]*ssa.Function
	cmu        sync.Mutex
	canonM     typeutil.Map
	msets      typeutil.MethodSetCache
	knownTags  map[string]bool
	lenientAll bool
	nmu        sync.Mutex
	inits      map[*ssa.Package]map[*ssa.Global]bool
	notes      map[string]int
	buildMu    sync.Mutex
	params     map[string]int64
	repo       string
	verif      string
	overlay    map[string][]byte // path -> contents
	files      []string          // source files encoded (repo)
	verbose    bool
	loadWall   time.Duration
	typeMu     sync.Mutex
	typeC      map[string]types.Type
}

// overlayFiles computes the virtual files added to or replaced in /repo.
//
//	rt/<pkg>/*.go           -> /repo/internal/<pkg>/*.go
//	harness/<dir>/*.go      -> /repo/<dir>/*.go        ("root" is the top)
//	/repo/antcache/*.go     -> the same with import "os" replaced by the
//	                           in-memory file system (recorded as a rewrite)
func overlayFiles(repo, verif string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(filepath.Join(verif, "rt"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(verif, "rt"), p)
		ov[filepath.Join(repo, "internal", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	err = filepath.Walk(filepath.Join(verif, "harness"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(verif, "harness"), p)
		dir, base := filepath.Dir(rel), filepath.Base(rel)
		if dir == "root" {
			dir = "."
		}
		ov[filepath.Join(repo, dir, "zz_verif_"+base)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	// os -> in-memory fault-injecting file system
	fs, _ := filepath.Glob(filepath.Join(repo, "antcache", "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if nb, ok := rewriteOS(string(b)); ok {
			ov[f] = []byte(nb)
		}
	}
	// the browser library -> a model of a browser
	cs, _ := filepath.Glob(filepath.Join(repo, "antcdp", "*.go"))
	for _, f := range cs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if nb, ok := rewriteCDP(string(b)); ok {
			ov[f] = []byte(nb)
		}
	}
	return ov, nil
}

var cdpImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"github.com/mafredri/(cdp|cdp/rpcc|cdp/devtool)"[ \t]*$`)

func rewriteCDP(src string) (string, bool) {
	hit := false
	out := cdpImport.ReplaceAllStringFunc(src, func(m string) string {
		s := cdpImport.FindStringSubmatch(m)
		hit = true
		name := s[2]
		base := filepath.Base(s[3])
		if name == "" {
			name = base
		}
		return s[1] + name + ` "` + repoMod + `/internal/zzv` + base + `"`
	})
	return out, hit
}

var osImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"(os|io/ioutil)"[ \t]*$`)

func rewriteOS(src string) (string, bool) {
	hit := false
	out := osImport.ReplaceAllStringFunc(src, func(m string) string {
		s := osImport.FindStringSubmatch(m)
		hit = true
		name := s[2]
		if name == "" {
			name = "os"
			if s[3] == "io/ioutil" {
				name = "ioutil"
			}
		}
		return s[1] + name + ` "` + repoMod + `/internal/zzvos"`
	})
	return out, hit
}

// Load builds the SSA of the repository with the overlay.
func Load(repo, verif string, patterns []string) (*Engine, error) {
	t0 := time.Now()
	ov, err := overlayFiles(repo, verif)
	if err != nil {
		return nil, err
	}
	e := &Engine{redirects: map[string]*ssa.Function{}, notes: map[string]int{}, knownTags: map[string]bool{},
		params: map[string]int64{}, repo: repo, verif: verif, overlay: ov, typeC: map[string]types.Type{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
		BuildFlags: []string{"-tags=noasm,purego,verif_sym"},
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	e.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.fset = prog.Fset
	// Build the functions of the repository eagerly, the rest on demand.
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path == repoMod || strings.HasPrefix(path, repoMod+"/") {
			p.Build()
		}
	}
	for _, p := range pkgs {
		for _, f := range p.GoFiles {
			if strings.HasPrefix(f, repo+"/") && !strings.Contains(f, "/zz") {
				rel, _ := filepath.Rel(repo, f)
				e.files = append(e.files, rel)
			}
		}
	}
	sort.Strings(e.files)
	if p := prog.ImportedPackage(repoMod + "/internal/zzvhttp"); p != nil {
		if f := p.Func("ClientDo"); f != nil {
			e.redirects["(*net/http.Client).Do"] = f
		}
	}
	e.loadWall = time.Since(t0)
	return e, nil
}

func (e *Engine) buildPkgOf(fn *ssa.Function) {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			f.Pkg.Build() // idempotent (sync.Once)
			return
		}
	}
}

func (e *Engine) isUser(pkg string) bool {
	return (pkg == repoMod || strings.HasPrefix(pkg, repoMod+"/")) && !strings.HasPrefix(pkg, repoMod+"/internal/zz")
}

func (e *Engine) isHarnessFn(fn *ssa.Function) bool {
	return strings.HasPrefix(shortFile(e.fset.Position(fn.Pos()).Filename), "zz_verif_")
}

// initialised reports whether the package's initialiser assigns to g.
func (e *Engine) initialised(g *ssa.Global) bool {
	g.Pkg.Build()
	e.nmu.Lock()
	defer e.nmu.Unlock()
	m, ok := e.inits[g.Pkg]
	if !ok {
		m = map[*ssa.Global]bool{}
		if fn := g.Pkg.Func("init"); fn != nil {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if x, ok := st.Addr.(*ssa.Global); ok {
							m[x] = true
						}
					}
				}
			}
		}
		if e.inits == nil {
			e.inits = map[*ssa.Package]map[*ssa.Global]bool{}
		}
		e.inits[g.Pkg] = m
	}
	return m[g]
}

func (e *Engine) skipInit(p string) bool {
	switch p {
	case "crypto/sha256", "crypto/sha1", "crypto/md5", "crypto/sha512", "crypto/internal/fips140/sha256", "crypto/internal/fips140/sha512",
		"crypto/internal/fips140deps/byteorder":
		return false
	case "runtime", "reflect", "testing", "internal/cpu", "os/exec", "os/user", "os/signal",
		"internal/reflectlite", "internal/testlog", "sync", "internal/sync", "internal/runtime/maps", "flag", "log", "vendor/golang.org/x/net/http2/hpack":
		return true
	}
	return strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "internal/runtime/") ||
		strings.HasPrefix(p, "vendor/golang.org/x/crypto") || strings.HasPrefix(p, "vendor/golang.org/x/text")
}

func (e *Engine) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	e.nmu.Lock()
	e.notes[s]++
	e.nmu.Unlock()
}

func (e *Engine) hit(w *Worker, c *code) {
	if c.hits == 0 || !w.hitSet[c] {
		w.hitSet[c] = true
	}
	c.hits++
}

// typeByName finds a named type of a loaded package.
func (e *Engine) typeByName(pkg, name string) types.Type {
	k := pkg + "." + name
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	if t, ok := e.typeC[k]; ok {
		return t
	}
	var t types.Type
	if p := e.prog.ImportedPackage(pkg); p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			t = o.Type()
		}
	}
	e.typeC[k] = t
	return t
}

// harness finds a harness function by package path and name.
func (e *Engine) harness(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------------------
// Loader: resolves import paths of the tsgolint program by itself (no `go list`,
// no network, no dependence on the git submodule being checked out), parses the
// files the build would pick for linux/amd64 and type-checks everything.
// ---------------------------------------------------------------------------

const (
	modPath    = "github.com/typescript-eslint/tsgolint"
	tsgoPath   = "github.com/microsoft/typescript-go"
	shimPrefix = tsgoPath + "/shim/"
)

type Pkg struct {
	Path    string
	Dir     string
	Files   []*ast.File
	Types   *types.Package
	Info    *types.Info
	Imports []string
	Std     bool
	Repo    bool // cmd/, internal/ (not collections), shim/, tools/
	Bodies  bool
	Errs    []error
	build   *build.Package
}

type Loader struct {
	Repo     string
	ModDir   map[string]string // module path -> dir
	Overlay  map[string]string // original path -> replacement path (patched typescript-go)
	TsgoDir  string
	Fset     *token.FileSet
	Pkgs     map[string]*Pkg
	Order    []*Pkg
	ctx      build.Context
	scratch  string
	NoBody   func(p *Pkg) bool
	Raw      bool     // leave the syntax as written
	NormErrs []string // packages that are analysed as written because rewriting failed
	mu       sync.Mutex
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	return runtime.GOROOT()
}

func gomodcache() string {
	if g := os.Getenv("GOMODCACHE"); g != "" {
		return g
	}
	if g := os.Getenv("GOPATH"); g != "" {
		return filepath.Join(g, "pkg/mod")
	}
	h, _ := os.UserHomeDir()
	if h == "" {
		h = "/root"
	}
	return filepath.Join(h, "go/pkg/mod")
}

func escapeMod(p string) string {
	var b strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			b.WriteRune(r + 32)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

var requireRe = regexp.MustCompile(`(?m)^\s*(?:require\s+)?([\w./\-~]+)\s+(v[\w.\-+]+)(?:\s*//.*)?$`)

func parseRequires(gomod string) map[string]string {
	res := map[string]string{}
	data, err := os.ReadFile(gomod)
	if err != nil {
		return res
	}
	for _, m := range requireRe.FindAllStringSubmatch(string(data), -1) {
		res[m[1]] = m[2]
	}
	return res
}

func NewLoader(repo string) (*Loader, error) {
	l := &Loader{Repo: repo, ModDir: map[string]string{}, Overlay: map[string]string{}, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}}
	l.ctx = build.Default
	l.ctx.GOROOT = goroot()
	l.ctx.GOOS, l.ctx.GOARCH = "linux", "amd64"
	l.ctx.CgoEnabled = false
	l.ctx.BuildTags = nil
	l.ctx.Compiler = "gc"
	cache := gomodcache()

	reqs := parseRequires(filepath.Join(repo, "go.mod"))
	if len(reqs) == 0 {
		return nil, fmt.Errorf("no requirements found in %s/go.mod", repo)
	}
	sub := filepath.Join(repo, "typescript-go")
	if _, err := os.Stat(filepath.Join(sub, "go.mod")); err == nil {
		l.TsgoDir = sub
	} else {
		v := reqs[tsgoPath]
		l.TsgoDir = filepath.Join(cache, escapeMod(tsgoPath)+"@"+v)
		if _, err := os.Stat(l.TsgoDir); err != nil {
			return nil, fmt.Errorf("typescript-go sources not found: %v", err)
		}
		if err := l.applyPatches(); err != nil {
			return nil, err
		}
	}
	tsreqs := parseRequires(filepath.Join(l.TsgoDir, "go.mod"))
	for m, v := range tsreqs {
		d := filepath.Join(cache, escapeMod(m)+"@"+v)
		if _, err := os.Stat(d); err == nil {
			l.ModDir[m] = d
		}
	}
	for m, v := range reqs {
		d := filepath.Join(cache, escapeMod(m)+"@"+v)
		if _, err := os.Stat(d); err == nil {
			l.ModDir[m] = d
		}
	}
	return l, nil
}

func (l *Loader) Close() {
	if l.scratch != "" {
		os.RemoveAll(l.scratch)
	}
}

// applyPatches copies the files that /repo/patches touches into a scratch
// directory, applies the patches there and overlays the results.
func (l *Loader) applyPatches() error {
	patches, _ := filepath.Glob(filepath.Join(l.Repo, "patches", "*.patch"))
	sort.Strings(patches)
	if len(patches) == 0 {
		return fmt.Errorf("no patches found in %s/patches", l.Repo)
	}
	dir, err := os.MkdirTemp("", "verif-tsgo-")
	if err != nil {
		return err
	}
	l.scratch = dir
	fileRe := regexp.MustCompile(`(?m)^(?:---|\+\+\+) [ab]/(\S+)`)
	files := map[string]bool{}
	for _, p := range patches {
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, m := range fileRe.FindAllStringSubmatch(string(data), -1) {
			files[m[1]] = true
		}
	}
	for f := range files {
		data, err := os.ReadFile(filepath.Join(l.TsgoDir, f))
		if err != nil {
			continue // created by a patch
		}
		dst := filepath.Join(dir, f)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, data, 0o644); err != nil {
			return err
		}
	}
	for _, p := range patches {
		cmd := exec.Command("git", "apply", "--whitespace=nowarn", "--unsafe-paths", "--directory="+dir, p)
		cmd.Dir = "/"
		cmd.Env = append(os.Environ(), "GIT_DIR=/nonexistent", "GIT_CEILING_DIRECTORIES=/")
		var out bytes.Buffer
		cmd.Stderr = &out
		cmd.Stdout = &out
		if err := cmd.Run(); err != nil {
			// second try with patch(1)
			pc := exec.Command("patch", "-p1", "-s", "-i", p)
			pc.Dir = dir
			var out2 bytes.Buffer
			pc.Stderr = &out2
			pc.Stdout = &out2
			if err2 := pc.Run(); err2 != nil {
				return fmt.Errorf("patch %s does not apply to typescript-go: %v %s / %v %s", filepath.Base(p), err, out.String(), err2, out2.String())
			}
		}
	}
	for f := range files {
		l.Overlay[filepath.Join(l.TsgoDir, f)] = filepath.Join(dir, f)
	}
	return nil
}

func (l *Loader) resolveDir(path, fromStdVendor string) (dir string, std bool, repo bool, err error) {
	gr := l.ctx.GOROOT
	switch {
	case path == modPath || strings.HasPrefix(path, modPath+"/"):
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		d := filepath.Join(l.Repo, rel)
		if rel == "internal/collections" {
			if hasGo(d) {
				return d, false, false, nil
			}
			return filepath.Join(l.TsgoDir, "internal/collections"), false, false, nil
		}
		return d, false, true, nil
	case strings.HasPrefix(path, shimPrefix):
		return filepath.Join(l.Repo, "shim", strings.TrimPrefix(path, shimPrefix)), false, true, nil
	case path == tsgoPath || strings.HasPrefix(path, tsgoPath+"/"):
		return filepath.Join(l.TsgoDir, strings.TrimPrefix(strings.TrimPrefix(path, tsgoPath), "/")), false, false, nil
	}
	first, _, _ := strings.Cut(path, "/")
	if !strings.Contains(first, ".") {
		return filepath.Join(gr, "src", path), true, false, nil
	}
	best := ""
	for m := range l.ModDir {
		if path == m || strings.HasPrefix(path, m+"/") {
			if len(m) > len(best) {
				best = m
			}
		}
	}
	if best != "" {
		return filepath.Join(l.ModDir[best], strings.TrimPrefix(strings.TrimPrefix(path, best), "/")), false, false, nil
	}
	return "", false, false, fmt.Errorf("cannot resolve import %q", path)
}

func hasGo(dir string) bool {
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	return len(m) > 0
}

// load parses path and, recursively, its imports.
func (l *Loader) load(path string, stdVendor bool) (*Pkg, error) {
	if p, ok := l.Pkgs[path]; ok {
		return p, nil
	}
	dir, std, repo, err := l.resolveDir(path, "")
	if err != nil {
		return nil, err
	}
	key := path
	if stdVendor {
		v := filepath.Join(l.ctx.GOROOT, "src/vendor", path)
		if _, e := os.Stat(v); e == nil {
			dir, std, repo = v, true, false
			key = "vendor/" + path
			if p, ok := l.Pkgs[key]; ok {
				return p, nil
			}
		}
	}
	p := &Pkg{Path: key, Dir: dir, Std: std, Repo: repo}
	l.Pkgs[key] = p
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("package %s (%s): %v", path, dir, err)
	}
	p.build = bp
	imps := map[string]bool{}
	for _, im := range bp.Imports {
		imps[im] = true
	}
	for im := range imps {
		p.Imports = append(p.Imports, im)
	}
	sort.Strings(p.Imports)
	p.Bodies = !std && (l.NoBody == nil || !l.NoBody(p))
	for _, im := range p.Imports {
		if im == "unsafe" || im == "C" {
			continue
		}
		if _, err := l.load(im, std); err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
	}
	l.Order = append(l.Order, p)
	return p, nil
}

func (l *Loader) importOf(p *Pkg, im string) *Pkg {
	if p.Std {
		if q, ok := l.Pkgs["vendor/"+im]; ok {
			return q
		}
	}
	return l.Pkgs[im]
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func (l *Loader) parse(p *Pkg) {
	p.Files = make([]*ast.File, 0, len(p.build.GoFiles))
	for _, f := range p.build.GoFiles {
		full := filepath.Join(p.Dir, f)
		var src any
		if o, ok := l.Overlay[full]; ok {
			data, err := os.ReadFile(o)
			if err != nil {
				p.Errs = append(p.Errs, err)
				continue
			}
			src = data
		}
		mode := parser.SkipObjectResolution
		if p.Repo || strings.Contains(p.Path, "typescript-go/internal/ast") {
			mode |= parser.ParseComments
		}
		af, err := parser.ParseFile(l.Fset, full, src, mode)
		if err != nil {
			p.Errs = append(p.Errs, err)
		}
		if af != nil {
			p.Files = append(p.Files, af)
		}
	}
}

// Load parses and type-checks roots and all dependencies.
func (l *Loader) Load(roots []string) error {
	for _, r := range roots {
		if _, err := l.load(r, false); err != nil {
			return err
		}
	}
	// parse in parallel
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, p := range l.Order {
		wg.Add(1)
		sem <- struct{}{}
		go func(p *Pkg) {
			defer wg.Done()
			defer func() { <-sem }()
			l.parse(p)
		}(p)
	}
	wg.Wait()
	// type-check in dependency order, in parallel
	done := make(map[*Pkg]chan struct{}, len(l.Order))
	for _, p := range l.Order {
		done[p] = make(chan struct{})
	}
	for _, p := range l.Order {
		wg.Add(1)
		go func(p *Pkg) {
			defer wg.Done()
			defer close(done[p])
			for _, im := range p.Imports {
				if q := l.importOf(p, im); q != nil {
					<-done[q]
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			parseErrs := len(p.Errs)
			check := func() {
				p.Errs = p.Errs[:parseErrs]
				p.Info = &types.Info{
					Types:        map[ast.Expr]types.TypeAndValue{},
					Defs:         map[*ast.Ident]types.Object{},
					Uses:         map[*ast.Ident]types.Object{},
					Implicits:    map[ast.Node]types.Object{},
					Selections:   map[*ast.SelectorExpr]*types.Selection{},
					Scopes:       map[ast.Node]*types.Scope{},
					Instances:    map[*ast.Ident]types.Instance{},
					FileVersions: map[*ast.File]string{},
				}
				cfg := &types.Config{
					IgnoreFuncBodies: !p.Bodies,
					FakeImportC:      true,
					Sizes:            types.SizesFor("gc", "amd64"),
					GoVersion:        "go1.26",
					Importer: impFunc(func(path string) (*types.Package, error) {
						if path == "unsafe" {
							return types.Unsafe, nil
						}
						q := l.importOf(p, path)
						if q == nil || q.Types == nil {
							return nil, fmt.Errorf("import %q not loaded", path)
						}
						return q.Types, nil
					}),
					Error: func(err error) { p.Errs = append(p.Errs, err) },
				}
				p.Types, _ = cfg.Check(p.Path, l.Fset, p.Files, p.Info)
			}
			check()
			if p.Repo && p.Bodies && !strings.HasPrefix(p.Path, shimPrefix) && !strings.Contains(p.Path, "/shim/") && len(p.Errs) == 0 && !l.Raw {
				for round := 0; round < 6 && normaliseRound(p); round++ {
					check()
					if len(p.Errs) > 0 {
						break
					}
				}
				if len(p.Errs) > 0 { // as written, then
					l.mu.Lock()
					l.NormErrs = append(l.NormErrs, p.Errs[0].Error())
					l.mu.Unlock()
					p.Errs = p.Errs[:parseErrs]
					l.parse(p)
					check()
				}
			}
		}(p)
	}
	wg.Wait()
	return nil
}

package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World is the resolved program: parsed, type-checked, SSA.
type World struct {
	L        *Loader
	Prog     *ssa.Program
	Link     map[*ssa.Function]*ssa.Function // shim function -> linked typescript-go function
	LinkName map[string]string               // shim pkg path + "." + func -> linkname target
	fnByObj  map[types.Object]*ssa.Function
	allFns   []*ssa.Function // all functions with a body in repo packages (incl. closures, instances)
	tsFns    []*ssa.Function // all functions with a body in typescript-go
	syntax   map[*ssa.Package]*Pkg
	declOf   map[types.Object]*ast.FuncDecl
}

var repoRoots = []string{
	modPath + "/cmd/tsgolint",
	modPath + "/internal/linter",
}

func LoadWorld(repo string, extra ...string) (*World, error) {
	l, err := NewLoader(repo)
	if err != nil {
		return nil, err
	}
	roots := append([]string{}, repoRoots...)
	roots = append(roots, extra...)
	if err := l.Load(roots); err != nil {
		l.Close()
		return nil, err
	}
	var errs []string
	for _, p := range l.Order {
		if p.Std {
			continue
		}
		for _, e := range p.Errs {
			errs = append(errs, e.Error())
			if len(errs) > 5 {
				break
			}
		}
	}
	if len(errs) > 0 {
		l.Close()
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	w := &World{L: l, Link: map[*ssa.Function]*ssa.Function{}, LinkName: map[string]string{}, fnByObj: map[types.Object]*ssa.Function{}, syntax: map[*ssa.Package]*Pkg{}, declOf: map[types.Object]*ast.FuncDecl{}}
	prog := ssa.NewProgram(l.Fset, ssa.InstantiateGenerics)
	w.Prog = prog
	prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, p := range l.Order {
		if p.Types == nil {
			continue
		}
		var sp *ssa.Package
		if p.Bodies {
			sp = prog.CreatePackage(p.Types, p.Files, p.Info, true)
		} else {
			sp = prog.CreatePackage(p.Types, nil, nil, true)
		}
		w.syntax[sp] = p
	}
	prog.Build()
	w.index()
	return w, nil
}

func (w *World) pkgOfFn(f *ssa.Function) *Pkg {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return w.syntax[f.Pkg]
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return w.L.Pkgs[f.Object().Pkg().Path()]
	}
	return nil
}

func isRepoPath(p string) bool {
	if p == modPath+"/internal/collections" {
		return false
	}
	return p == modPath || strings.HasPrefix(p, modPath+"/") || strings.HasPrefix(p, shimPrefix)
}

func isTsgoPath(p string) bool {
	return strings.HasPrefix(p, tsgoPath+"/internal/") || p == modPath+"/internal/collections"
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (w *World) index() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	var insts []*ssa.Function
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Object() != nil && f.Origin() == nil {
			w.fnByObj[f.Object()] = f
		}
		pp := fnPkgPath(f)
		if len(f.Blocks) > 0 {
			switch {
			case isRepoPath(pp):
				w.allFns = append(w.allFns, f)
			case isTsgoPath(pp):
				w.tsFns = append(w.tsFns, f)
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
		// find generic instances and wrappers through operands
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						insts = append(insts, g)
					}
				}
			}
		}
	}
	for _, p := range w.L.Order {
		if p.Types == nil || p.Std {
			continue
		}
		sp := w.Prog.Package(p.Types)
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					if nt.TypeParams().Len() > 0 {
						for i := 0; i < nt.NumMethods(); i++ {
							if f := w.Prog.FuncValue(nt.Method(i)); f != nil {
								w.fnByObj[nt.Method(i)] = f
							}
						}
						continue
					}
					for i := 0; i < nt.NumMethods(); i++ {
						add(w.Prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	for len(insts) > 0 {
		x := insts
		insts = nil
		for _, f := range x {
			add(f)
		}
	}
	sort.SliceStable(w.allFns, func(i, j int) bool { return w.allFns[i].Pos() < w.allFns[j].Pos() })
	// linknames
	for _, p := range w.L.Order {
		if !strings.HasPrefix(p.Path, shimPrefix) {
			continue
		}
		for _, f := range p.Files {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:linkname ") {
						parts := strings.Fields(c.Text)
						if len(parts) == 3 {
							w.LinkName[p.Path+"."+parts[1]] = parts[2]
						}
					}
				}
			}
		}
		sp := w.Prog.Package(p.Types)
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || len(f.Blocks) > 0 {
				continue
			}
			t := w.LinkName[p.Path+"."+name]
			if t == "" {
				continue
			}
			if g := w.findLinkTarget(t); g != nil {
				w.Link[f] = g
			}
		}
	}
	for _, p := range w.L.Order {
		if !p.Bodies {
			continue
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o := p.Info.Defs[fd.Name]; o != nil {
						w.declOf[o] = fd
					}
				}
			}
		}
	}
}

// findLinkTarget resolves a linkname symbol such as
// "github.com/x/y.(*T).m", "github.com/x/y.T.m" or "github.com/x/y.f".
func (w *World) findLinkTarget(sym string) *ssa.Function {
	slash := strings.LastIndex(sym, "/")
	dot := strings.Index(sym[slash+1:], ".")
	if dot < 0 {
		return nil
	}
	pkg, rest := sym[:slash+1+dot], sym[slash+1+dot+1:]
	p := w.L.Pkgs[pkg]
	if p == nil || p.Types == nil {
		return nil
	}
	if strings.HasPrefix(rest, "(") {
		end := strings.Index(rest, ")")
		if end < 0 || len(rest) < end+2 {
			return nil
		}
		tn, m := rest[1:end], rest[end+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := p.Types.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		n, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == m {
				_, isPtr := n.Method(i).Type().(*types.Signature).Recv().Type().(*types.Pointer)
				if isPtr != ptr {
					return nil
				}
				return w.Prog.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	if i := strings.Index(rest, "."); i >= 0 {
		return nil
	}
	if f, ok := p.Types.Scope().Lookup(rest).(*types.Func); ok {
		return w.Prog.FuncValue(f)
	}
	return nil
}

// real follows a shim linkname to the typescript-go function behind it.
func (w *World) real(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if g, ok := w.Link[f]; ok {
		return g
	}
	return f
}

// lookupFn finds a package level function or method: "pkg.Func" or "pkg.(Type).Method".
func (w *World) lookupFn(pkg, recv, name string) *ssa.Function {
	p := w.L.Pkgs[pkg]
	if p == nil || p.Types == nil {
		return nil
	}
	if recv == "" {
		if f, ok := p.Types.Scope().Lookup(name).(*types.Func); ok {
			return w.Prog.FuncValue(f)
		}
		return nil
	}
	o := p.Types.Scope().Lookup(recv)
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return w.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (w *World) namedType(pkg, name string) *types.Named {
	p := w.L.Pkgs[pkg]
	if p == nil || p.Types == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.L.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(w.L.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "typescript-go@"); i >= 0 {
		f = f[i:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fnName gives a stable readable name: package-relative, closures as parent$1.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, tsgoPath+"/", "tsgo/")
	return s
}

// ---- small helpers ---------------------------------------------------------

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return types.Unalias(t)
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func typePkg(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func fieldOf(v ssa.Value) (*types.Var, ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		return st.Field(x.Field), x.X, true
	case *ssa.Field:
		st := types.Unalias(x.X.Type()).Underlying().(*types.Struct)
		return st.Field(x.Field), x.X, true
	}
	return nil, nil, false
}

func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

// objPath names a function object: "pkg/path.Name" or "pkg/path.Recv.Name".
func objPath(o *types.Func) string {
	if o == nil {
		return ""
	}
	o = o.Origin()
	p := ""
	if o.Pkg() != nil {
		p = o.Pkg().Path() + "."
	}
	if s, ok := o.Type().(*types.Signature); ok && s.Recv() != nil {
		if n := namedOf(s.Recv().Type()); n != nil {
			if n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Path() + "."
			}
			return p + n.Obj().Name() + "." + o.Name()
		}
	}
	return p + o.Name()
}

func calleePath(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return objPath(calleeObj(c))
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

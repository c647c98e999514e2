package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Calls into the TypeScript engine reach the intended code and data",
		"Every declaration of the shim packages that is part of the program is compared with the type-checked (patched) typescript-go: the linkname target of every body-less function exists, is the function or method the shim is named after and has an identical signature; constants have the value and type, type aliases the type, and variables the initial value of the engine's declaration of the same name. Every conversion through unsafe.Pointer is resolved: the mirrored struct has the engine struct's fields at the same offsets with the same sizes, and what an accessor returns is the engine field it is named after, with a layout-identical type.",
		checkC17)
}

type shimAn struct {
	r     *R
	w     *World
	sizes types.Sizes
}

func engineSignature(f *types.Func) *types.Signature {
	s := f.Type().(*types.Signature)
	if s.Recv() == nil {
		return s
	}
	vars := []*types.Var{types.NewParam(token.NoPos, nil, "", s.Recv().Type())}
	for i := 0; i < s.Params().Len(); i++ {
		vars = append(vars, s.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(vars...), s.Results(), s.Variadic())
}

// sameLayout: values of the two types can stand for each other bit by bit.
func (a *shimAn) sameLayout(x, y types.Type, d int) bool {
	if types.Identical(x, y) {
		return true
	}
	if d > 8 {
		return true
	}
	switch ux := x.Underlying().(type) {
	case *types.Basic:
		uy, ok := y.Underlying().(*types.Basic)
		return ok && ux.Kind() == uy.Kind()
	case *types.Pointer:
		uy, ok := y.Underlying().(*types.Pointer)
		return ok && a.sameLayout(ux.Elem(), uy.Elem(), d+1)
	case *types.Slice:
		uy, ok := y.Underlying().(*types.Slice)
		return ok && a.sameLayout(ux.Elem(), uy.Elem(), d+1)
	case *types.Map:
		uy, ok := y.Underlying().(*types.Map)
		return ok && a.sameLayout(ux.Key(), uy.Key(), d+1) && a.sameLayout(ux.Elem(), uy.Elem(), d+1)
	case *types.Array:
		uy, ok := y.Underlying().(*types.Array)
		return ok && ux.Len() == uy.Len() && a.sameLayout(ux.Elem(), uy.Elem(), d+1)
	case *types.Signature:
		uy, ok := y.Underlying().(*types.Signature)
		if !ok || ux.Params().Len() != uy.Params().Len() || ux.Results().Len() != uy.Results().Len() || ux.Variadic() != uy.Variadic() {
			return false
		}
		for i := 0; i < ux.Params().Len(); i++ {
			if !a.sameLayout(ux.Params().At(i).Type(), uy.Params().At(i).Type(), d+1) {
				return false
			}
		}
		for i := 0; i < ux.Results().Len(); i++ {
			if !a.sameLayout(ux.Results().At(i).Type(), uy.Results().At(i).Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		uy, ok := y.Underlying().(*types.Struct)
		if !ok || ux.NumFields() != uy.NumFields() {
			return false
		}
		for i := 0; i < ux.NumFields(); i++ {
			if !a.sameLayout(ux.Field(i).Type(), uy.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *shimAn) offsets(st *types.Struct) []int64 {
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	return a.sizes.Offsetsof(fs)
}

func enginePkgOf(shim string) string {
	return tsgoPath + "/internal/" + strings.TrimPrefix(shim, shimPrefix)
}

func checkC17(r *R) {
	w := r.W
	a := &shimAn{r: r, w: w, sizes: types.SizesFor("gc", "amd64")}
	r.Rule("link-target", "the engine function a shim function is linked to exists and is the one it is named after")
	r.Rule("link-signature", "a shim function has exactly the parameters and results of the engine function")
	r.Rule("same-constant", "a constant of the shim has the value and type of the engine's constant of that name")
	r.Rule("same-type", "a type of the shim is the engine's type of that name")
	r.Rule("same-variable", "a variable of the shim is the engine's variable of that name")
	r.Rule("mirror-layout", "a mirrored struct has the engine struct's fields at the same offsets with the same sizes")
	r.Rule("mirror-field", "an accessor returns the engine field it is named after")
	r.Rule("unsafe", "memory is reinterpreted only between an engine struct and its mirror")

	pkgs := 0
	for _, p := range w.L.Order {
		if !strings.HasPrefix(p.Path, shimPrefix) || p.Types == nil {
			continue
		}
		pkgs++
		short := strings.TrimPrefix(p.Path, shimPrefix)
		eng := w.L.Pkgs[enginePkgOf(p.Path)]
		if !r.Need(eng != nil && eng.Types != nil, "the engine package behind shim/"+short) {
			continue
		}
		scope := p.Types.Scope()
		for _, name := range scope.Names() {
			o := scope.Lookup(name)
			con, pos := short+"."+name, w.pos(o.Pos())
			switch x := o.(type) {
			case *types.Func:
				if fd := w.declOf[x]; fd != nil && fd.Body != nil {
					continue // judged by rule unsafe/mirror-field
				}
				a.function(p, x, con, pos)
			case *types.Const:
				e := eng.Types.Scope().Lookup(name)
				if e == nil {
					continue
				}
				ec, ok := e.(*types.Const)
				r.Ob("same-constant", con, ok && constant.Compare(x.Val(), token.EQL, ec.Val()) && types.Identical(x.Type(), ec.Type()), pos,
					fmt.Sprintf("the value or type differs from that of %s in the engine", name))
			case *types.TypeName:
				e := eng.Types.Scope().Lookup(name)
				if e == nil {
					continue
				}
				et, ok := e.(*types.TypeName)
				r.Ob("same-type", con, ok && sameTypeName(x, et), pos, "not the engine's type "+name)
			case *types.Var:
				a.variable(p, x, con, pos, eng)
			}
		}
	}
	a.unsafeUses()
	r.Min("link-target", 500)
	r.Min("link-signature", 500)
	r.Min("same-constant", 500)
	r.Min("same-type", 300)
	r.Min("mirror-layout", 5)
	r.Min("mirror-field", 10)
	r.Info["shim packages"] = pkgs
	r.Assume = append(r.Assume, "sizes and offsets are those of the gc compiler on 64-bit targets", "an engine variable that is copied by the shim is not assigned to after initialisation")
}

func sameTypeName(x, y *types.TypeName) bool {
	tx, ty := types.Unalias(x.Type()), types.Unalias(y.Type())
	nx, ok1 := tx.(*types.Named)
	ny, ok2 := ty.(*types.Named)
	if ok1 && ok2 {
		return nx.Origin().Obj() == ny.Origin().Obj()
	}
	return types.Identical(tx, ty)
}

func (a *shimAn) function(p *Pkg, x *types.Func, con, pos string) {
	w, r := a.w, a.r
	t := w.LinkName[p.Path+"."+x.Name()]
	if t == "" {
		r.Bad("link-target", con, pos, "declared without a body and linked to nothing")
		return
	}
	g := w.findLinkTarget(t)
	if g == nil {
		r.Bad("link-target", con, pos, "the linked symbol "+t+" does not exist in the engine")
		return
	}
	gf, ok := g.Object().(*types.Func)
	if !r.Need(ok, "the declaration behind "+t) {
		return
	}
	want := gf.Name()
	if rv := gf.Type().(*types.Signature).Recv(); rv != nil {
		if n := namedOf(rv.Type()); n != nil {
			want = n.Obj().Name() + "_" + gf.Name()
		}
	}
	own := gf.Pkg() != nil && gf.Pkg().Path() == enginePkgOf(p.Path)
	named := want == x.Name()
	if !named && len(want) == len(x.Name()) && want[1:] == x.Name()[1:] && strings.EqualFold(want, x.Name()) {
		// exported under the capitalised name; the engine has no other function of that name
		named = gf.Pkg().Scope().Lookup(x.Name()) == nil
	}
	r.Ob("link-target", con, named && own, pos, "linked to "+t+", which is not the function it is named after")
	sig := x.Type().(*types.Signature)
	es := engineSignature(gf)
	r.Ob("link-signature", con, types.Identical(sig, es), pos,
		"its signature "+types.TypeString(sig, nil)+" differs from the engine's "+types.TypeString(es, nil)+": arguments or results would be misread")
}

func (a *shimAn) variable(p *Pkg, x *types.Var, con, pos string, eng *Pkg) {
	w, r := a.w, a.r
	if t := w.LinkName[p.Path+"."+x.Name()]; t != "" {
		i := strings.LastIndex(t, ".")
		ep := w.L.Pkgs[t[:i]]
		var e types.Object
		if ep != nil && ep.Types != nil {
			e = ep.Types.Scope().Lookup(t[i+1:])
		}
		ev, ok := e.(*types.Var)
		r.Ob("same-variable", con, ok && types.Identical(ev.Type(), x.Type()), pos, "linked to "+t+", which is not a variable of the same type")
		return
	}
	e, ok := eng.Types.Scope().Lookup(x.Name()).(*types.Var)
	if !ok {
		return
	}
	// initialised from the variable of that name, and not assigned to otherwise
	sp := w.Prog.Package(p.Types)
	g, _ := sp.Members[x.Name()].(*ssa.Global)
	if !r.Need(g != nil, "the variable "+con) {
		return
	}
	n, good := 0, 0
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				n++
				if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if eg, ok := u.X.(*ssa.Global); ok && eg.Object() == e {
						good++
					}
				}
			}
		}
	}
	r.Ob("same-variable", con, n == 1 && good == 1, pos, "not initialised with (only) the engine's variable "+x.Name())
}

// unsafeUses: every conversion of an unsafe.Pointer to a typed pointer in the repository.
func (a *shimAn) unsafeUses() {
	w, r := a.w, a.r
	mirrors := map[*types.Named]*types.Named{}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cv, ok := ins.(*ssa.Convert)
				if !ok {
					continue
				}
				bt, ok := cv.X.Type().Underlying().(*types.Basic)
				if !ok || bt.Kind() != types.UnsafePointer {
					continue
				}
				con, pos := fnName(f), w.pos(cv.Pos())
				src := cv.X
				for {
					if c2, ok := src.(*ssa.Convert); ok {
						src = c2.X
						continue
					}
					if c2, ok := src.(*ssa.ChangeType); ok {
						src = c2.X
						continue
					}
					break
				}
				en, mn := namedOf(deref(src.Type())), namedOf(deref(cv.Type()))
				if _, isB := cv.Type().Underlying().(*types.Basic); isB {
					continue
				}
				if en == nil || mn == nil {
					r.Bad("unsafe", con, pos, "memory of type "+types.TypeString(src.Type(), nil)+" is read as "+types.TypeString(cv.Type(), nil))
					continue
				}
				es, ok1 := en.Underlying().(*types.Struct)
				ms, ok2 := mn.Underlying().(*types.Struct)
				okE := ok1 && ok2 && isTsgoPath(typePkg(en))
				if !r.Ob("unsafe", con, okE, pos, "memory of type "+types.TypeString(src.Type(), nil)+" is read as "+types.TypeString(cv.Type(), nil)) {
					continue
				}
				if _, seen := mirrors[mn]; !seen {
					mirrors[mn] = en
					a.mirror(mn, en, ms, es)
				} else {
					r.Ob("mirror-layout", mn.Obj().Name()+" mirrors one type", mirrors[mn] == en, pos, "the mirror is used for two engine types")
				}
				a.reads(f, cv, ms, es, en)
			}
		}
	}
	var names []string
	for m := range mirrors {
		names = append(names, m.Obj().Name())
	}
	sort.Strings(names)
	r.Info["mirrored structs"] = names
	// no linkname outside the shims
	for _, p := range w.L.Order {
		if !p.Repo || strings.HasPrefix(p.Path, shimPrefix) {
			continue
		}
		for _, f := range p.Files {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:linkname ") {
						a.foreignLink(p, c)
					}
				}
			}
		}
	}
}

// foreignLink: a linkname outside the shims must have an identical signature, too.
func (a *shimAn) foreignLink(p *Pkg, c *ast.Comment) {
	parts := strings.Fields(c.Text)
	if len(parts) != 3 || !strings.Contains(parts[2], "typescript-go/internal/") {
		return
	}
	con, pos := p.Path+"."+parts[1], a.w.pos(c.Pos())
	g := a.w.findLinkTarget(parts[2])
	x, ok := p.Types.Scope().Lookup(parts[1]).(*types.Func)
	if g == nil || !ok {
		a.r.Bad("link-target", con, pos, "the linked symbol "+parts[2]+" does not exist in the engine")
		return
	}
	gf := g.Object().(*types.Func)
	a.r.Ob("link-signature", con, types.Identical(x.Type(), engineSignature(gf)), pos, "its signature differs from the engine's")
}

func (a *shimAn) mirror(mn, en *types.Named, ms, es *types.Struct) {
	r, w := a.r, a.w
	con, pos := mn.Obj().Name(), w.pos(mn.Obj().Pos())
	ok := ms.NumFields() == es.NumFields()
	r.Ob("mirror-layout", con+": fields", ok, pos, fmt.Sprintf("%d fields, the engine's %s has %d", ms.NumFields(), en.Obj().Name(), es.NumFields()))
	if !ok {
		return
	}
	mo, eo := a.offsets(ms), a.offsets(es)
	for i := range mo {
		mf, ef := ms.Field(i), es.Field(i)
		ok := mo[i] == eo[i] && a.sizes.Sizeof(mf.Type()) == a.sizes.Sizeof(ef.Type())
		r.Ob("mirror-layout", con+"."+mf.Name(), ok, w.pos(mf.Pos()), fmt.Sprintf("at offset %d with %d bytes, the engine's %s.%s is at offset %d with %d bytes",
			mo[i], a.sizes.Sizeof(mf.Type()), en.Obj().Name(), ef.Name(), eo[i], a.sizes.Sizeof(ef.Type())))
	}
}

// reads: what is taken out of a mirror.
func (a *shimAn) reads(f *ssa.Function, cv *ssa.Convert, ms, es *types.Struct, en *types.Named) {
	r, w := a.r, a.w
	mo, eo := a.offsets(ms), a.offsets(es)
	isAccessor := strings.HasPrefix(fnPkgPath(f), shimPrefix) && f.Parent() == nil
	returned := false
	for _, ref := range *cv.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			if _, isDbg := ref.(*ssa.DebugRef); isDbg {
				continue
			}
			r.Bad("unsafe", fnName(f), w.pos(cv.Pos()), "the mirrored struct is used other than by reading a field")
			continue
		}
		mf := ms.Field(fa.Field)
		// the engine field at that offset
		var ef *types.Var
		for i, off := range eo {
			if off == mo[fa.Field] && a.sizes.Sizeof(es.Field(i).Type()) > 0 {
				ef = es.Field(i)
			}
		}
		con := fnName(f) + " reads " + mf.Name()
		pos := w.pos(fa.Pos())
		if ef == nil {
			r.Bad("mirror-field", con, pos, "there is no field of the engine's "+en.Obj().Name()+" at this offset")
			continue
		}
		want := mf.Name()
		if isAccessor && f.Signature.Params().Len() == 1 {
			want = strings.TrimPrefix(f.Name(), en.Obj().Name()+"_")
			r.Ob("mirror-field", con+": owner", strings.HasPrefix(f.Name(), en.Obj().Name()+"_"), pos, "the accessor reads a field of "+en.Obj().Name())
		}
		r.Ob("mirror-field", con, ef.Name() == want && a.sameLayout(mf.Type(), ef.Type(), 0), pos,
			"what is read is the engine's "+en.Obj().Name()+"."+ef.Name()+" of type "+types.TypeString(ef.Type(), nil)+", not "+want+" "+types.TypeString(mf.Type(), nil))
		for _, r2 := range *fa.Referrers() {
			switch x := r2.(type) {
			case *ssa.UnOp:
				for _, r3 := range *x.Referrers() {
					if _, ok := r3.(*ssa.Return); ok {
						returned = true
					}
				}
			case *ssa.Store:
				r.Bad("unsafe", fnName(f), w.pos(x.Pos()), "an engine field is written through the mirrored struct")
			}
		}
	}
	if isAccessor {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				u, ok := v.(*ssa.UnOp)
				if ok {
					_, ok = u.X.(*ssa.FieldAddr)
				}
				r.Ob("mirror-field", fnName(f)+" result", ok && returned, w.pos(ret.Pos()), "the accessor does not return what it reads from the engine struct")
			}
		}
	}
}

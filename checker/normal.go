package main

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// Before a package is analysed, pieces of code that were only given a name are put back where they
// are used: an unexported function that is an expression and is called once, a local function that is
// called once, a truth value that is computed right before the only condition that uses it. What the
// program does is the same; what differs is that the checks see it written one way.

type normaliser struct {
	p       *Pkg
	uses    map[types.Object]int
	changed bool
	moved   map[ast.Node]bool // touched in this round
}

// normaliseRound rewrites the syntax of a package once; false if there was nothing to do.
func normaliseRound(p *Pkg) bool {
	n := &normaliser{p: p, uses: map[types.Object]int{}, moved: map[ast.Node]bool{}}
	for id, o := range p.Info.Uses {
		if id.Name != "_" {
			n.uses[o]++
		}
	}
	n.functions()
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				continue
			}
			n.statements(d)
		}
	}
	if n.changed {
		for _, f := range p.Files {
			n.imports(f)
		}
	}
	return n.changed
}

// imports drops the imports that only a function needed that is gone.
func (n *normaliser) imports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(m ast.Node) bool {
		if s, ok := m.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	drop := map[*ast.ImportSpec]bool{}
	for _, im := range f.Imports {
		if im.Name != nil {
			drop[im] = im.Name.Name != "_" && im.Name.Name != "." && !used[im.Name.Name]
		} else if o := n.p.Info.Implicits[im]; o != nil {
			drop[im] = !used[o.Name()]
		}
	}
	var ims []*ast.ImportSpec
	for _, im := range f.Imports {
		if !drop[im] {
			ims = append(ims, im)
		}
	}
	f.Imports = ims
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var ss []ast.Spec
			for _, s := range g.Specs {
				if !drop[s.(*ast.ImportSpec)] {
					ss = append(ss, s)
				}
			}
			g.Specs = ss
		}
	}
}

func (n *normaliser) touched(x ast.Node) bool {
	hit := false
	ast.Inspect(x, func(m ast.Node) bool {
		if m != nil && n.moved[m] {
			hit = true
		}
		return !hit
	})
	return hit
}

// theExpr: the body is nothing but the answer.
func theExpr(t *ast.FuncType, b *ast.BlockStmt) ast.Expr {
	if b == nil || len(b.List) != 1 || t.TypeParams != nil || t.Results == nil || len(t.Results.List) != 1 || len(t.Results.List[0].Names) > 0 {
		return nil
	}
	r, ok := b.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return nil
	}
	lit := false
	ast.Inspect(r.Results[0], func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			lit = true
		}
		return true
	})
	if lit {
		return nil
	}
	return r.Results[0]
}

type inlinable struct {
	fd *ast.FuncDecl
	e  ast.Expr
}

// functions puts unexported functions that are expressions where they are called.
func (n *normaliser) functions() {
	for _, f := range n.p.Files {
		cand := map[types.Object]*inlinable{}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || ast.IsExported(fd.Name.Name) || fd.Name.Name == "main" || fd.Name.Name == "init" || fd.Doc != nil && hasDirective(fd.Doc) {
				continue
			}
			o := n.p.Info.Defs[fd.Name]
			if o == nil || n.uses[o] != 1 {
				continue
			}
			if e := theExpr(fd.Type, fd.Body); e != nil {
				cand[o] = &inlinable{fd, e}
			}
		}
		if len(cand) == 0 {
			continue
		}
		gone := map[*ast.FuncDecl]bool{}
		for _, d := range f.Decls {
			own, _ := d.(*ast.FuncDecl)
			astutil.Apply(d, nil, func(c *astutil.Cursor) bool {
				call, ok := c.Node().(*ast.CallExpr)
				if !ok {
					return true
				}
				var id *ast.Ident
				var recv ast.Expr
				switch x := call.Fun.(type) {
				case *ast.Ident:
					id = x
				case *ast.SelectorExpr:
					id, recv = x.Sel, x.X
				}
				if id == nil {
					return true
				}
				in := cand[n.p.Info.Uses[id]]
				if in == nil || gone[in.fd] || own == in.fd || own != nil && gone[own] || (recv != nil) != (in.fd.Recv != nil) || n.calls(in.e, cand) {
					return true
				}
				switch c.Parent().(type) {
				case *ast.ExprStmt, *ast.GoStmt, *ast.DeferStmt:
					return true
				}
				// a name of the expression must mean the same here
				if n.shadowed(in.e, d, in.fd) {
					return true
				}
				e := n.subst(in.fd.Recv, in.fd.Type, in.e, recv, call)
				if e == nil {
					return true
				}
				c.Replace(e)
				n.moved[e] = true
				gone[in.fd] = true
				n.changed = true
				return true
			})
		}
		if len(gone) > 0 {
			var ds []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && gone[fd] {
					continue
				}
				ds = append(ds, d)
			}
			f.Decls = ds
		}
	}
}

func hasDirective(g *ast.CommentGroup) bool {
	for _, c := range g.List {
		if len(c.Text) > 5 && c.Text[:5] == "//go:" {
			return true
		}
	}
	return false
}

func (n *normaliser) calls(e ast.Expr, cand map[types.Object]*inlinable) bool {
	hit := false
	ast.Inspect(e, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && cand[n.p.Info.Uses[id]] != nil {
			hit = true
		}
		return true
	})
	return hit
}

// shadowed: in the declaration d something else has the name of something the expression uses.
func (n *normaliser) shadowed(e ast.Expr, d ast.Node, fd *ast.FuncDecl) bool {
	names := map[string]types.Object{}
	sel := map[*ast.Ident]bool{}
	ast.Inspect(e, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.SelectorExpr:
			sel[m.Sel] = true
		case *ast.KeyValueExpr:
			if id, ok := m.Key.(*ast.Ident); ok {
				if v, ok := n.p.Info.Uses[id].(*types.Var); ok && v.IsField() {
					sel[id] = true
				}
			}
		case *ast.Ident:
			if o := n.p.Info.Uses[m]; o != nil && !sel[m] && (fd == nil || !within(o, fd)) {
				names[m.Name] = o
			}
		}
		return true
	})
	hit := false
	ast.Inspect(d, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			if o := n.p.Info.Defs[id]; o != nil && names[id.Name] != nil && names[id.Name] != o {
				if v, ok := o.(*types.Var); !ok || !v.IsField() {
					hit = true
				}
			}
		}
		return !hit
	})
	return hit
}

func within(o types.Object, n ast.Node) bool { return o.Pos() >= n.Pos() && o.Pos() < n.End() }

// subst is the expression with the arguments of a call for the parameters; nil if that is not the same.
func (n *normaliser) subst(recv *ast.FieldList, t *ast.FuncType, e ast.Expr, self ast.Expr, call *ast.CallExpr) ast.Expr {
	if call.Ellipsis.IsValid() {
		return nil
	}
	info := n.p.Info
	args := map[types.Object]ast.Expr{}
	texpr := map[types.Object]ast.Expr{}
	var list []types.Object
	if recv != nil {
		if len(recv.List) != 1 || len(recv.List[0].Names) > 1 {
			return nil
		}
		if len(recv.List[0].Names) == 1 {
			o := info.Defs[recv.List[0].Names[0]]
			if o == nil && recv.List[0].Names[0].Name != "_" {
				return nil
			}
			if o != nil {
				if tv := info.Types[self]; tv.Type == nil || !types.Identical(tv.Type, o.Type()) {
					return nil
				}
				args[o] = self
				list = append(list, o)
			}
		} else if !simpleExpr(self) {
			return nil
		}
	}
	i := 0
	for _, f := range t.Params.List {
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			return nil
		}
		names := f.Names
		if len(names) == 0 {
			names = []*ast.Ident{{Name: "_"}}
		}
		for _, nm := range names {
			if i >= len(call.Args) {
				return nil
			}
			a := call.Args[i]
			i++
			if nm.Name == "_" {
				if !simpleExpr(a) {
					return nil
				}
				continue
			}
			o := info.Defs[nm]
			if o == nil {
				return nil
			}
			tv := info.Types[a]
			if tv.Type == nil {
				return nil
			}
			if tv.Value != nil || tv.IsNil() || !types.Identical(tv.Type, o.Type()) {
				a = &ast.CallExpr{Fun: &ast.ParenExpr{X: cloneExpr(f.Type), Lparen: a.Pos(), Rparen: a.Pos()}, Lparen: a.Pos(), Args: []ast.Expr{a}, Rparen: a.End()}
				if cloneExpr(f.Type) == nil {
					return nil
				}
			}
			args[o] = a
			texpr[o] = f.Type
			list = append(list, o)
		}
	}
	if i != len(call.Args) {
		return nil
	}
	// parameters that are written to or whose address is taken stay what they are
	count := map[types.Object]int{}
	cond := map[types.Object]bool{}
	bad := false
	var walk func(m ast.Node, c bool)
	walk = func(m ast.Node, c bool) {
		ast.Inspect(m, func(q ast.Node) bool {
			switch q := q.(type) {
			case *ast.BinaryExpr:
				if q.Op == token.LAND || q.Op == token.LOR {
					walk(q.X, c)
					walk(q.Y, true)
					return false
				}
			case *ast.UnaryExpr:
				if id, ok := q.X.(*ast.Ident); ok && q.Op == token.AND && args[info.Uses[id]] != nil {
					bad = true
				}
			case *ast.Ident:
				if o := info.Uses[q]; o != nil && args[o] != nil {
					count[o]++
					if c {
						cond[o] = true
					}
				}
			}
			return true
		})
	}
	walk(e, false)
	if bad {
		return nil
	}
	for _, o := range list {
		if !simpleExpr(args[o]) && (count[o] != 1 || cond[o]) {
			return nil
		}
		// a condition evaluated later must not see a changed variable: plain variables are read either way
	}
	tv := info.Types[e]
	root := &ast.ParenExpr{Lparen: e.Pos(), X: e, Rparen: e.End()}
	astutil.Apply(root, func(c *astutil.Cursor) bool {
		if id, ok := c.Node().(*ast.Ident); ok {
			if o := info.Uses[id]; o != nil && args[o] != nil {
				if kv, ok := c.Parent().(*ast.KeyValueExpr); ok && kv.Key == id {
					if v, ok := o.(*types.Var); ok && v.IsField() {
						return true
					}
				}
				a := args[o]
				if simpleExpr(a) {
					a = cloneExpr(a)
				}
				c.Replace(&ast.ParenExpr{Lparen: id.Pos(), X: a, Rparen: id.End()})
				return false
			}
		}
		return true
	}, nil)
	rt := info.TypeOf(t.Results.List[0].Type)
	if rt == nil || tv.Type == nil {
		return nil
	}
	if tv.Value != nil || tv.IsNil() || !types.Identical(tv.Type, rt) {
		b, isBasic := tv.Type.(*types.Basic)
		if !(isBasic && b.Kind() == types.UntypedBool && types.Identical(rt, types.Typ[types.Bool])) {
			rc := cloneExpr(t.Results.List[0].Type)
			if rc == nil {
				return nil
			}
			return &ast.CallExpr{Fun: &ast.ParenExpr{X: rc, Lparen: e.Pos(), Rparen: e.Pos()}, Lparen: e.Pos(), Args: []ast.Expr{root}, Rparen: e.End()}
		}
	}
	return root
}

// simpleExpr: names, literals and parts of these: nothing happens when it is evaluated.
func simpleExpr(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simpleExpr(e.X)
	case *ast.ParenExpr:
		return simpleExpr(e.X)
	case *ast.StarExpr:
		return simpleExpr(e.X)
	case *ast.IndexExpr:
		return simpleExpr(e.X) && simpleExpr(e.Index)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && simpleExpr(e.X)
	case *ast.CallExpr: // a conversion made above
		if p, ok := e.Fun.(*ast.ParenExpr); ok && len(e.Args) == 1 && cloneExpr(p.X) != nil && e.Lparen == e.Args[0].Pos() {
			return simpleExpr(e.Args[0])
		}
	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
		return true
	}
	return false
}

func cloneExpr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		c := *e
		return &c
	case *ast.BasicLit:
		c := *e
		return &c
	case *ast.SelectorExpr:
		if x := cloneExpr(e.X); x != nil {
			return &ast.SelectorExpr{X: x, Sel: cloneExpr(e.Sel).(*ast.Ident)}
		}
	case *ast.ParenExpr:
		if x := cloneExpr(e.X); x != nil {
			return &ast.ParenExpr{Lparen: e.Lparen, X: x, Rparen: e.Rparen}
		}
	case *ast.StarExpr:
		if x := cloneExpr(e.X); x != nil {
			return &ast.StarExpr{Star: e.Star, X: x}
		}
	case *ast.UnaryExpr:
		if x := cloneExpr(e.X); x != nil {
			return &ast.UnaryExpr{OpPos: e.OpPos, Op: e.Op, X: x}
		}
	case *ast.IndexExpr:
		x, y := cloneExpr(e.X), cloneExpr(e.Index)
		if x != nil && y != nil {
			return &ast.IndexExpr{X: x, Lbrack: e.Lbrack, Index: y, Rbrack: e.Rbrack}
		}
	case *ast.ArrayType:
		x := cloneExpr(e.Elt)
		if x != nil && e.Len == nil {
			return &ast.ArrayType{Lbrack: e.Lbrack, Elt: x}
		}
	case *ast.MapType:
		x, y := cloneExpr(e.Key), cloneExpr(e.Value)
		if x != nil && y != nil {
			return &ast.MapType{Map: e.Map, Key: x, Value: y}
		}
	case *ast.InterfaceType:
		if e.Methods == nil || len(e.Methods.List) == 0 {
			return &ast.InterfaceType{Interface: e.Interface, Methods: &ast.FieldList{}}
		}
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			x, y := cloneExpr(e.Fun), cloneExpr(e.Args[0])
			if x != nil && y != nil {
				return &ast.CallExpr{Fun: x, Lparen: e.Lparen, Args: []ast.Expr{y}, Rparen: e.Rparen}
			}
		}
	}
	return nil
}

// leavesOnly: no statement of the body leaves it in another way than by its end.
func leavesOnly(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			ok = false
		case *ast.BranchStmt:
			if m.Label != nil {
				ok = false
			}
		case *ast.CallExpr:
			if id, is := m.Fun.(*ast.Ident); is && id.Name == "recover" {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func noParams(t *ast.FuncType) bool { return t.Params == nil || len(t.Params.List) == 0 }

// statements puts local functions and truth values where they are used.
func (n *normaliser) statements(d ast.Node) {
	info := n.p.Info
	var lists func(list []ast.Stmt) []ast.Stmt
	lists = func(list []ast.Stmt) []ast.Stmt {
		for i := 0; i < len(list); i++ {
			as, ok := list[i].(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				continue
			}
			id, ok := as.Lhs[0].(*ast.Ident)
			if !ok {
				continue
			}
			o := info.Defs[id]
			if o == nil || n.uses[o] != 1 || n.touched(as) {
				continue
			}
			if fl, ok := as.Rhs[0].(*ast.FuncLit); ok {
				if n.localFunc(list, i, o, fl) {
					list = append(list[:i:i], list[i+1:]...)
					i--
					n.changed = true
				}
				continue
			}
			if b, ok := o.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 || i+1 >= len(list) {
				continue
			}
			iff, ok := list[i+1].(*ast.IfStmt)
			if !ok || iff.Init != nil || n.touched(iff.Cond) {
				continue
			}
			if n.first(&iff.Cond, o, as.Rhs[0]) {
				n.moved[iff.Cond] = true
				list = append(list[:i:i], list[i+1:]...)
				i--
				n.changed = true
			}
		}
		return list
	}
	astutil.Apply(d, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.BlockStmt:
			x.List = lists(x.List)
		case *ast.CaseClause:
			x.Body = lists(x.Body)
		case *ast.CommClause:
			x.Body = lists(x.Body)
		case *ast.ExprStmt:
			// a function called where it is written
			if call, ok := x.X.(*ast.CallExpr); ok && len(call.Args) == 0 {
				if fl, ok := call.Fun.(*ast.FuncLit); ok && noParams(fl.Type) && fl.Type.Results == nil && leavesOnly(fl.Body) && inList(c) {
					c.Replace(fl.Body)
					n.changed = true
				}
			}
		case *ast.CallExpr:
			if fl, ok := x.Fun.(*ast.FuncLit); ok && noParams(fl.Type) && len(x.Args) == 0 {
				switch c.Parent().(type) {
				case *ast.ExprStmt, *ast.GoStmt, *ast.DeferStmt:
					return true
				}
				if e := theExpr(fl.Type, fl.Body); e != nil {
					if r := n.subst(nil, fl.Type, e, nil, x); r != nil {
						c.Replace(r)
						n.changed = true
					}
				}
			}
		}
		return true
	})
}

func inList(c *astutil.Cursor) bool {
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// first puts e for the variable if the variable is what the condition looks at first.
func (n *normaliser) first(at *ast.Expr, o types.Object, e ast.Expr) bool {
	switch x := (*at).(type) {
	case *ast.Ident:
		if n.p.Info.Uses[x] == o {
			*at = &ast.ParenExpr{Lparen: e.Pos(), X: e, Rparen: e.End()}
			return true
		}
	case *ast.ParenExpr:
		return n.first(&x.X, o, e)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return n.first(&x.X, o, e)
		}
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			return n.first(&x.X, o, e)
		}
	}
	return false
}

// localFunc puts a local function where it is called.
func (n *normaliser) localFunc(list []ast.Stmt, i int, o types.Object, fl *ast.FuncLit) bool {
	info := n.p.Info
	for j := i + 1; j < len(list); j++ {
		used := false
		ast.Inspect(list[j], func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok && info.Uses[id] == o {
				used = true
			}
			return !used
		})
		if !used {
			continue
		}
		for k := i + 1; k <= j; k++ {
			if n.touched(list[k]) {
				return false
			}
		}
		e := theExpr(fl.Type, fl.Body)
		plain := e == nil && fl.Type.Results == nil && noParams(fl.Type) && leavesOnly(fl.Body)
		if e == nil && !plain {
			return false
		}
		for k := i + 1; k <= j; k++ {
			if n.shadowedIn(fl, list[k]) {
				return false
			}
		}
		done := false
		holder := &ast.BlockStmt{List: []ast.Stmt{list[j]}}
		astutil.Apply(holder, nil, func(c *astutil.Cursor) bool {
			if done {
				return true
			}
			if plain {
				es, ok := c.Node().(*ast.ExprStmt)
				if !ok || !inList(c) {
					return true
				}
				call, ok := es.X.(*ast.CallExpr)
				if !ok || len(call.Args) != 0 {
					return true
				}
				if id, ok := call.Fun.(*ast.Ident); ok && info.Uses[id] == o {
					c.Replace(fl.Body)
					n.moved[fl.Body] = true
					done = true
				}
				return true
			}
			call, ok := c.Node().(*ast.CallExpr)
			if !ok {
				return true
			}
			switch c.Parent().(type) {
			case *ast.ExprStmt, *ast.GoStmt, *ast.DeferStmt:
				return true
			}
			if id, ok := call.Fun.(*ast.Ident); ok && info.Uses[id] == o {
				if r := n.subst(nil, fl.Type, e, nil, call); r != nil {
					c.Replace(r)
					n.moved[r] = true
					done = true
				}
			}
			return true
		})
		if done {
			list[j] = holder.List[0]
		}
		return done
	}
	return false
}

// shadowedIn: the statement declares a name that the function uses for something else.
func (n *normaliser) shadowedIn(fl *ast.FuncLit, s ast.Stmt) bool {
	names := map[string]types.Object{}
	ast.Inspect(fl.Body, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			if o := n.p.Info.Uses[id]; o != nil && !within(o, fl) {
				if v, ok := o.(*types.Var); ok && v.IsField() {
					return true
				}
				names[id.Name] = o
			}
		}
		return true
	})
	hit := false
	ast.Inspect(s, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			if o := n.p.Info.Defs[id]; o != nil && names[id.Name] != nil && names[id.Name] != o {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Recursion: every cycle of the call graph has to consume something. For each
// call of a cycle the analysis works out how what is handed on relates to what
// the caller was given: the same value, a part of it (a child or parent node, a
// constituent of a union, the rest of a slice, a smaller number), or something
// reached along a relation that can lead back (the arguments of a recursive type,
// the declarations of a symbol, the type of a property). A cycle that hands on the
// same values, or only values reached along relations that can lead back, ends only
// if it remembers where it has been.
// ---------------------------------------------------------------------------

type relClass int

const (
	rcSame relClass = iota
	rcDown          // strictly inside the input
	rcUp            // strictly around the input (an ancestor)
	rcCyc           // reached along a relation that can lead back
	rcExt           // the input with something added
	rcUnk
)

func (c relClass) String() string {
	return [...]string{"same", "part", "ancestor", "cyclic", "extended", "unknown"}[c]
}

func compose(a, b relClass) relClass {
	switch {
	case a == rcUnk || b == rcUnk:
		return rcUnk
	case a == rcCyc || b == rcCyc:
		return rcCyc
	case a == rcSame:
		return b
	case b == rcSame:
		return a
	case a == rcExt && b == rcExt:
		return a
	case a == b:
		return a
	}
	return rcUnk
}

type rel struct {
	In ssa.Value // Parameter or FreeVar of the function, nil: fresh
	C  relClass
}

type relSet map[rel]bool

func (s relSet) add(o relSet, c relClass) {
	for r := range o {
		s[rel{r.In, compose(r.C, c)}] = true
	}
}

type recur struct {
	w      *World
	edges  map[*ssa.Function][]*recEdge
	sums   map[*ssa.Function][]relSet
	busy   map[*ssa.Function]bool
	ext    map[*ssa.Function]map[string]token.Pos
	callIn map[*ssa.Function][]*ssa.MakeClosure
	pure   map[*ssa.Function]bool
	ring   map[*ssa.Function]bool // the functions of the cycle that is being judged
	leaf   map[ssa.Value]bool     // values to relate to, besides the inputs of the function
	path   *loopPath
}

type recEdge struct {
	From, To *ssa.Function
	Site     ssa.CallInstruction
	Arg      map[ssa.Value]relSet // input of To -> relations to the inputs of From
	Const    []ssa.Value          // inputs of To that are given a constant
}

func newRecur(w *World) *recur {
	a := &recur{w: w, edges: map[*ssa.Function][]*recEdge{}, sums: map[*ssa.Function][]relSet{}, busy: map[*ssa.Function]bool{}, ext: map[*ssa.Function]map[string]token.Pos{}, callIn: map[*ssa.Function][]*ssa.MakeClosure{}, pure: map[*ssa.Function]bool{}}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					a.callIn[g] = append(a.callIn[g], mc)
				}
			}
		}
	}
	return a
}

// cellFns: the functions a value of function type can be.
func (a *recur) cellFns(v ssa.Value, d int) []*ssa.Function {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return a.cellFns(x.X, d+1)
	case *ssa.UnOp:
		return a.cellFns(x.X, d+1)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range x.Edges {
			r = append(r, a.cellFns(e, d+1)...)
		}
		return r
	case *ssa.Alloc:
		var r []*ssa.Function
		for _, u := range *x.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == x {
				r = append(r, a.cellFns(s.Val, d+1)...)
			}
		}
		return r
	case *ssa.Global:
		var r []*ssa.Function
		if x.Pkg != nil && isRepoPath(x.Pkg.Pkg.Path()) && isFuncT(deref(x.Type())) {
			for _, f := range a.w.allFns {
				if f.Name() != "init" || f.Pkg != x.Pkg {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == x {
							r = append(r, a.cellFns(s.Val, d+1)...)
						}
					}
				}
			}
		}
		return r
	case *ssa.FreeVar:
		var r []*ssa.Function
		for _, b := range a.bindings(x) {
			r = append(r, a.cellFns(b, d+1)...)
		}
		return r
	}
	return nil
}

func (a *recur) bindings(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	var r []ssa.Value
	for i, x := range f.FreeVars {
		if x != fv {
			continue
		}
		for _, mc := range a.callIn[f] {
			r = append(r, mc.Bindings[i])
		}
	}
	return r
}

func isBoundWrapper(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) != 1 {
		return nil
	}
	for _, in := range f.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			return c.Call.StaticCallee()
		}
	}
	return nil
}

// ---- relations -------------------------------------------------------------

func measured(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		n := namedOf(u)
		return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), tsgoPath) && !isContextType(n.Obj().Name())
	case *types.Slice:
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString) != 0
	case *types.Slice:
		return true
	}
	return false
}

func isContextType(n string) bool {
	switch n {
	case "Checker", "Program", "SourceFile", "Scanner", "CompilerOptions", "NodeFactory":
		return true
	}
	return false
}

func (a *recur) classOf(v ssa.Value) relSet { return a.classD(v, map[ssa.Value]bool{}, 0) }

func (a *recur) classD(v ssa.Value, seen map[ssa.Value]bool, d int) relSet {
	unk := func(xs ...ssa.Value) relSet {
		r := relSet{}
		for _, x := range xs {
			r.add(a.classD(x, seen, d+1), rcUnk)
		}
		if len(r) == 0 {
			r[rel{nil, rcUnk}] = true
		}
		return r
	}
	if d > 40 {
		return unk()
	}
	if seen[v] {
		return relSet{}
	}
	seen[v] = true
	defer delete(seen, v)
	with := func(x ssa.Value, c relClass) relSet {
		r := relSet{}
		r.add(a.classD(x, seen, d+1), c)
		return r
	}
	if a.leaf[v] {
		return relSet{{v, rcSame}: true}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return relSet{{x, rcSame}: true}
	case *ssa.FreeVar:
		return relSet{{x, rcSame}: true}
	case *ssa.Const:
		return relSet{{nil, rcUnk}: true}
	case *ssa.ChangeType:
		return with(x.X, rcSame)
	case *ssa.ChangeInterface:
		return with(x.X, rcSame)
	case *ssa.MakeInterface:
		return with(x.X, rcSame)
	case *ssa.Convert:
		return with(x.X, rcSame)
	case *ssa.TypeAssert:
		return with(x.X, rcSame)
	case *ssa.Phi:
		if a.path != nil {
			if q := a.path.pick(x); q != nil {
				return with(q, rcSame)
			}
		}
		r := relSet{}
		for _, e := range x.Edges {
			r.add(a.classD(e, seen, d+1), rcSame)
		}
		return r
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			if k, ok := constInt(x.Low); !(ok && k == 0 && x.High == nil) {
				return with(x.X, rcDown)
			}
		}
		return with(x.X, rcSame)
	case *ssa.IndexAddr:
		return with(x.X, rcSame)
	case *ssa.Index:
		return with(x.X, rcSame)
	case *ssa.Field:
		return with(x.X, a.fieldClass(x.X.Type(), x.Field))
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			r := relSet{}
			for _, u := range *al.Referrers() {
				fa, ok := u.(*ssa.FieldAddr)
				if !ok || fa.Field != x.Field {
					continue
				}
				for _, s := range *fa.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
						r.add(a.classD(st.Val, seen, d+1), rcSame)
					}
				}
			}
			if len(r) > 0 {
				return r
			}
			return unk()
		}
		return with(x.X, a.fieldClass(x.X.Type(), x.Field))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return with(x.X, rcSame)
		}
		return unk(x.X)
	case *ssa.Alloc:
		r := relSet{}
		for _, u := range *x.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr == x {
					r.add(a.classD(s.Val, seen, d+1), rcSame)
				}
			case *ssa.IndexAddr: // slice literal
				for _, q := range *s.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == s {
						r.add(a.classD(st.Val, seen, d+1), rcSame)
					}
				}
			}
		}
		if len(r) == 0 {
			return unk()
		}
		return r
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if k, ok := constInt(x.Y); ok {
				if k == 0 {
					return with(x.X, rcSame)
				}
				switch x.Op {
				case token.ADD:
					return with(x.X, rcUp)
				case token.SUB:
					return with(x.X, rcDown)
				}
			}
		}
		return unk(x.X, x.Y)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callClass(c, x.Index, seen, d)
		}
		if l, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return with(l.X, rcSame)
		}
		return unk()
	case *ssa.Call:
		return a.callClass(x, 0, seen, d)
	}
	return unk()
}

// fieldClass: how a field's value relates to the object holding it.
func (a *recur) fieldClass(t types.Type, i int) relClass {
	n := namedOf(deref(t))
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || n == nil || n.Obj().Pkg() == nil || !isTsgoPath(n.Obj().Pkg().Path()) {
		return rcUnk
	}
	f := st.Field(i)
	pkg := n.Obj().Pkg().Path()
	switch pkg {
	case pAst:
		switch n.Obj().Name() {
		case "Symbol":
			if f.Name() == "Parent" {
				return rcUp
			}
			return rcCyc
		case "NodeList", "ModifierList":
			return rcSame
		}
		if f.Embedded() {
			return rcSame
		}
		if f.Name() == "Parent" {
			return rcUp
		}
		switch f.Name() {
		case "Symbol", "LocalSymbol", "FlowNode", "NextContainer", "EndFlowNode", "ReturnFlowNode", "Locals":
			return rcCyc
		}
		if isNodeish(f.Type()) {
			return rcDown
		}
		return rcUnk
	case tsgoPath + "/internal/checker":
		if f.Embedded() {
			return rcSame
		}
		if f.Name() == "types" {
			return rcDown
		}
		return rcCyc
	}
	return rcUnk
}

func isNodeish(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		n := namedOf(u)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pAst && n.Obj().Name() != "Symbol"
	case *types.Slice:
		return isNodeish(u.Elem())
	case *types.Alias:
		return isNodeish(types.Unalias(u))
	}
	if n := namedOf(t); n != nil {
		if u, ok := n.Underlying().(*types.Slice); ok {
			return isNodeish(u.Elem())
		}
	}
	return false
}

// accessor: how the result of a function of typescript-go relates to its argument arg.
func (a *recur) accessor(c *ssa.CallCommon) (arg int, cl relClass, ok bool) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return 0, 0, false
	}
	name := o.Name()
	pkg := o.Pkg().Path()
	if strings.HasPrefix(pkg, shimPrefix) {
		if rp := realPath(a.w, c); rp != "" {
			name = lastDot(rp)
		}
		if i := strings.Index(name, "_"); i > 0 {
			name = name[i+1:]
		}
		pkg = tsgoPath + "/internal/" + strings.TrimPrefix(pkg, shimPrefix)
	}
	sig := o.Type().(*types.Signature)
	if sig.Results().Len() == 0 {
		return 0, 0, false
	}
	res := sig.Results().At(0).Type()
	low := strings.ToLower(name)
	first := -1
	for i, v := range c.Args {
		if measured(v.Type()) {
			first = i
			break
		}
	}
	if first < 0 {
		return 0, 0, false
	}
	// arguments after the receiver or the checker
	at := c.Args[first].Type()
	nodeArg, nodeRes := isNodeish(at), isNodeish(res)
	isT := func(t types.Type) bool {
		n := namedOf(deref(t))
		return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/checker") && n.Obj().Name() == "Type"
	}
	isTs := func(t types.Type) bool {
		if s, ok := t.Underlying().(*types.Slice); ok {
			return isT(s.Elem())
		}
		return false
	}
	switch {
	case low == "getaliasedsymbol", low == "resolvealias":
		return first, rcDown, true // resolves to something that is not an alias
	case low == "target" && !isT(at):
		return first, rcDown, true // what a signature was instantiated from
	case low == "getancestorconfigfilename" && len(c.Args) >= 4:
		return len(c.Args) - 2, rcUp, true
	case low == "computeconfigfilename":
		// the search leaves out the directory of the file itself
		for i, v := range c.Args {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && i > 0 {
				if constant.BoolVal(k.Value) {
					return i - 1, rcUp, true
				}
				return i - 1, rcSame, true
			}
		}
	case nodeArg && nodeRes:
		switch {
		case strings.HasPrefix(name, "As"), strings.HasPrefix(low, "skip"), name == "Nodes", strings.HasPrefix(low, "findancestor"), strings.HasPrefix(low, "walkup"), strings.HasPrefix(name, "Data"):
			return first, rcSame, true
		case strings.Contains(low, "parent"), strings.Contains(low, "container"), strings.Contains(low, "enclosing"), strings.Contains(low, "ancestor"), strings.Contains(low, "sourcefile"):
			if strings.Contains(low, "parenthes") {
				return first, rcSame, true
			}
			return first, rcUp, true
		case strings.Contains(low, "declaration"), strings.Contains(low, "symbol"), strings.Contains(low, "locals"):
			return first, rcCyc, true
		}
		if sig.Recv() != nil {
			return first, rcDown, true // children
		}
		return first, rcUnk, true
	case isTs(at) && isT(res):
		return first, rcUnk, true
	case low == "getdeclaredtypeofsymbol":
		return first, rcSame, true // with symbol: what the type was instantiated from
	case isT(at):
		switch {
		case low == "symbol":
			return first, rcSame, true
		case name == "Types" || name == "GetTypesOfUnionOrIntersection":
			return first, rcDown, true
		case strings.HasPrefix(name, "As"):
			return first, rcSame, true
		case low == "getbasetypes", low == "getbaseconstraintoftype", low == "getresolvedbaseconstraint", low == "getconstraintoftype":
			return first, rcDown, true
		case low == "getapparenttype", low == "getnonnullabletype", low == "getwidenedtype", low == "getregulartypeofliteraltype", low == "getbasetypeofliteraltype", low == "target":
			return first, rcSame, true
		case isT(res) || isTs(res) || nodeRes || measured(res):
			if b, ok := res.Underlying().(*types.Basic); ok && b != nil {
				return first, rcUnk, true
			}
			return first, rcCyc, true
		}
	case nodeRes || isT(res) || isTs(res):
		if b, ok := at.Underlying().(*types.Basic); ok && b != nil {
			return first, rcUnk, true
		}
		if measured(res) && !nodeArg {
			return first, rcCyc, true
		}
		return first, rcCyc, true
	}
	if strings.HasSuffix(pkg, "/checker") || pkg == pAst {
		if measured(res) {
			if _, ok := res.Underlying().(*types.Basic); !ok {
				return first, rcCyc, true
			}
		}
	}
	return first, rcUnk, true
}

func lastDot(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (a *recur) callClass(c *ssa.Call, idx int, seen map[ssa.Value]bool, d int) relSet {
	r := relSet{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for i, x := range c.Call.Args {
				cl := rcSame
				if i == 0 {
					cl = rcExt
				}
				r.add(a.classD(x, seen, d+1), cl)
			}
			return r
		}
		r[rel{nil, rcUnk}] = true
		return r
	}
	f := c.Call.StaticCallee()
	if f == nil && !c.Call.IsInvoke() {
		if fs := a.cellFns(c.Call.Value, 0); len(fs) == 1 && len(fs[0].Params) == len(c.Call.Args) {
			f = fs[0]
		}
	}
	if f != nil && len(f.Blocks) > 0 && isRepoPath(fnPkgPath(f)) && !strings.HasPrefix(fnPkgPath(f), shimPrefix) && !a.w.isLinked(f) {
		sum := a.summary(f)
		if sum != nil && idx < len(sum) {
			for q := range sum[idx] {
				if q.In == nil {
					r[rel{nil, rcUnk}] = true
					continue
				}
				p, ok := q.In.(*ssa.Parameter)
				if !ok {
					r[rel{nil, rcUnk}] = true
					continue
				}
				for i, pp := range f.Params {
					if pp == p && i < len(c.Call.Args) {
						r.add(a.classD(c.Call.Args[i], seen, d+1), q.C)
					}
				}
			}
			if len(r) == 0 {
				r[rel{nil, rcUnk}] = true
			}
			return r
		}
	}
	if i, cl, ok := a.accessor(&c.Call); ok {
		r.add(a.classD(c.Call.Args[i], seen, d+1), cl)
		return r
	}
	r[rel{nil, rcUnk}] = true
	return r
}

func (w *World) isLinked(f *ssa.Function) bool { return w.Link[f] != nil }

// summary: relations of a function's results to its parameters (nil while it is being worked out).
func (a *recur) summary(f *ssa.Function) []relSet {
	if s, ok := a.sums[f]; ok {
		return s
	}
	if a.busy[f] {
		return nil
	}
	a.busy[f] = true
	defer delete(a.busy, f)
	n := f.Signature.Results().Len()
	s := make([]relSet, n)
	for i := range s {
		s[i] = relSet{}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range ret.Results {
				if i < n && !isNilConst(v) {
					s[i].add(a.classOf(v), rcSame)
				}
			}
		}
	}
	a.sums[f] = s
	return s
}

// ---- call edges ------------------------------------------------------------

func (a *recur) edgesOf(f *ssa.Function) []*recEdge {
	if e, ok := a.edges[f]; ok {
		return e
	}
	a.edges[f] = nil
	var out []*recEdge
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			var direct []*ssa.Function
			if s := c.StaticCallee(); s != nil {
				direct = []*ssa.Function{s}
			} else if !c.IsInvoke() {
				direct = a.cellFns(c.Value, 0)
			}
			for _, g := range direct {
				args := c.Args
				off := 0
				if w := isBoundWrapper(g); w != nil {
					g, off = w, 1
				}
				if len(g.Blocks) == 0 || !strings.HasPrefix(fnPkgPath(g), modPath) {
					continue
				}
				e := &recEdge{From: f, To: g, Site: ci, Arg: map[ssa.Value]relSet{}}
				for i, p := range g.Params {
					if i-off >= 0 && i-off < len(args) {
						e.Arg[p] = a.classOf(args[i-off])
						if _, ok := args[i-off].(*ssa.Const); ok && !isNilConst(args[i-off]) && !measured(p.Type()) {
							e.Const = append(e.Const, p)
						}
					}
				}
				a.bindArgs(e, f, g, c.Value)
				out = append(out, e)
			}
			// functions handed to a callee that calls them
			for k, v := range c.Args {
				if !isFuncT(v.Type()) {
					continue
				}
				for _, g := range a.cellFns(v, 0) {
					if len(g.Blocks) == 0 || !strings.HasPrefix(fnPkgPath(g), modPath) {
						continue
					}
					e := &recEdge{From: f, To: g, Site: ci, Arg: map[ssa.Value]relSet{}}
					for _, p := range g.Params {
						e.Arg[p] = a.callbackArg(ci, k, p)
					}
					a.bindArgs(e, f, g, v)
					out = append(out, e)
				}
			}
		}
	}
	a.edges[f] = out
	return out
}

// callbackArg: what a callee that is given a function calls it with.
func (a *recur) callbackArg(ci ssa.CallInstruction, k int, p *ssa.Parameter) relSet {
	c := ci.Common()
	o := calleeObj(c)
	r := relSet{}
	if o != nil && (strings.HasPrefix(o.Name(), "ForEachChild") || o.Name() == "VisitEachChild" || strings.HasPrefix(o.Name(), "IterChildren")) && len(c.Args) > 0 && isNodeish(c.Args[0].Type()) {
		r.add(a.classOf(c.Args[0]), rcDown)
		return r
	}
	if g := c.StaticCallee(); g != nil && len(g.Blocks) > 0 && isRepoPath(fnPkgPath(g)) && k < len(g.Params) {
		for i, q := range p.Parent().Params {
			if q != p {
				continue
			}
			for x := range a.calledWith(g, g.Params[k], i, map[ssa.Value]bool{}) {
				gp, ok := x.In.(*ssa.Parameter)
				if !ok {
					r[rel{nil, rcUnk}] = true
					continue
				}
				for j, y := range g.Params {
					if y == gp {
						r.add(a.classOf(c.Args[j]), x.C)
					}
				}
			}
			if len(r) > 0 {
				return r
			}
		}
	}
	for i, v := range c.Args {
		if i == k {
			continue
		}
		if s, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), p.Type()) {
			r.add(a.classOf(v), rcSame)
		}
	}
	if len(r) == 0 {
		r[rel{nil, rcUnk}] = true
	}
	return r
}

// calledWith: what a function calls the function it is given in fp with, as its argument i.
func (a *recur) calledWith(g *ssa.Function, fp *ssa.Parameter, i int, seen map[ssa.Value]bool) relSet {
	r := relSet{}
	if seen[fp] {
		return r
	}
	seen[fp] = true
	var again []*ssa.CallCommon
	for _, u := range *fp.Referrers() {
		ci, ok := u.(ssa.CallInstruction)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); !ok {
				r[rel{nil, rcUnk}] = true
			}
			continue
		}
		c := ci.Common()
		if c.Value == ssa.Value(fp) {
			if i < len(c.Args) {
				r.add(a.classOf(c.Args[i]), rcSame)
			}
			continue
		}
		h := c.StaticCallee()
		for k, v := range c.Args {
			if v != ssa.Value(fp) {
				continue
			}
			switch {
			case h == g && k < len(g.Params) && g.Params[k] == fp:
				again = append(again, c)
			case h != nil && len(h.Blocks) > 0 && isRepoPath(fnPkgPath(h)) && k < len(h.Params):
				for x := range a.calledWith(h, h.Params[k], i, seen) {
					done := false
					for j, y := range h.Params {
						if ssa.Value(y) == x.In {
							r.add(a.classOf(c.Args[j]), x.C)
							done = true
						}
					}
					if !done {
						r[rel{nil, rcUnk}] = true
					}
				}
			default:
				r[rel{nil, rcUnk}] = true
			}
		}
	}
	for n := 0; n < 3; n++ {
		for _, c := range again {
			add := relSet{}
			for x := range r {
				for j, y := range g.Params {
					if ssa.Value(y) == x.In {
						add.add(a.classOf(c.Args[j]), x.C)
					}
				}
			}
			for x := range add {
				r[x] = true
			}
		}
	}
	return r
}

// bindArgs: what the variables captured by a closure created in f hold.
func (a *recur) bindArgs(e *recEdge, f, g *ssa.Function, v ssa.Value) {
	for i, fv := range g.FreeVars {
		rs := relSet{}
		made := false
		for _, mc := range a.callIn[g] {
			if mc.Parent() == f {
				made = true
				rs.add(a.classOf(mc.Bindings[i]), rcSame)
			}
		}
		if !made {
			// the closure exists already: what it captured stays what it was, as far as f can see
			for _, x := range f.FreeVars {
				if len(a.bindings(x)) == 1 && len(a.bindings(fv)) == 1 && a.bindings(x)[0] == a.bindings(fv)[0] {
					rs[rel{x, rcSame}] = true
				}
			}
		}
		if len(rs) == 0 {
			rs[rel{nil, rcUnk}] = true
		}
		e.Arg[fv] = rs
	}
}

// sccs of the repo's call graph.
func (a *recur) sccs() [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n := 0
	var out [][]*ssa.Function
	var sc func(f *ssa.Function)
	sc = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, e := range a.edgesOf(f) {
			g := e.To
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				sc(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				out = append(out, c)
			}
		}
	}
	for _, f := range a.w.allFns {
		if strings.HasPrefix(fnPkgPath(f), modPath) && isRepoPath(fnPkgPath(f)) && idx[f] == 0 {
			sc(f)
		}
	}
	return out
}

// ---- histories -------------------------------------------------------------

// roots names what a value is held in, so that uses of one thing in different functions can be told to be the same.
func (a *recur) roots(v ssa.Value, d int) map[string]bool {
	r := map[string]bool{}
	a.rootsInto(v, d, r, map[ssa.Value]bool{})
	return r
}

func (a *recur) rootsInto(v ssa.Value, d int, r map[string]bool, seen map[ssa.Value]bool) {
	if d > 12 || seen[v] {
		return
	}
	seen[v] = true
	id := func() {
		p := "-"
		if f := v.Parent(); f != nil {
			p = fmt.Sprintf("%p", f)
		}
		r[p+":"+v.Name()] = true
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
	case *ssa.Parameter, *ssa.Global, *ssa.MakeMap, *ssa.MakeSlice:
		id()
	case *ssa.FreeVar:
		bs := a.bindings(x)
		if len(bs) == 0 {
			id()
		}
		for _, b := range bs {
			a.rootsInto(b, d+1, r, seen)
		}
	case *ssa.Alloc:
		id()
		for _, u := range *x.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == x {
				switch s.Val.(type) {
				case *ssa.Parameter, *ssa.FreeVar, *ssa.MakeMap:
					a.rootsInto(s.Val, d+1, r, seen)
				}
			}
		}
	case *ssa.UnOp:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.FieldAddr:
		sub := map[string]bool{}
		a.rootsInto(x.X, d+1, sub, seen)
		for k := range sub {
			r[k+"."+fmt.Sprint(x.Field)] = true
		}
	case *ssa.Field:
		sub := map[string]bool{}
		a.rootsInto(x.X, d+1, sub, seen)
		for k := range sub {
			r[k+"."+fmt.Sprint(x.Field)] = true
		}
	case *ssa.IndexAddr:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.Lookup:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			a.rootsInto(l.X, d+1, r, seen)
			return
		}
		id()
	case *ssa.Slice:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.ChangeType:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.Convert:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.rootsInto(e, d+1, r, seen)
		}
	case *ssa.BinOp:
		a.rootsInto(x.X, d+1, r, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a.rootsInto(x.Call.Args[0], d+1, r, seen)
			return
		}
		id()
	default:
		id()
	}
}

func historyType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsInteger != 0
	case *types.Pointer:
		n := namedOf(u)
		if n == nil || n.Obj().Pkg() == nil {
			return historyType(u.Elem())
		}
		p := n.Obj().Pkg().Path()
		if strings.HasPrefix(p, modPath) || p == "sync" || strings.HasSuffix(p, "/collections") {
			return true
		}
	case *types.Struct:
		return true
	}
	return false
}

// extensions: what function f (with what it calls) adds to, by root, with one position each.
func (a *recur) extensions(in ssa.Instruction, d int) map[string]bool {
	r := map[string]bool{}
	switch x := in.(type) {
	case *ssa.MapUpdate:
		for k := range a.roots(x.Map, 0) {
			r[k] = true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if k, ok := constInt(x.Y); ok && k != 0 {
					for k := range a.roots(x.X, 0) {
						r[k] = true
					}
				}
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for k := range a.roots(c.Args[0], 0) {
					r[k] = true
				}
			}
			return r
		}
		switch calleePath(c) {
		case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap":
			for k := range a.roots(c.Args[0], 0) {
				r[k] = true
			}
			return r
		}
		if d > 4 {
			return r
		}
		var fs []*ssa.Function
		if f := c.StaticCallee(); f != nil {
			fs = append(fs, f)
		} else if !c.IsInvoke() {
			fs = a.cellFns(c.Value, 0)
		}
		for _, f := range fs {
			if len(f.Blocks) == 0 || !strings.HasPrefix(fnPkgPath(f), modPath) {
				continue
			}
			for k := range a.fnExt(f, d+1) {
				// translate the callee's parameters
				done := false
				for i, p := range f.Params {
					pk := fmt.Sprintf("%p:%s", f, p.Name())
					if k == pk || strings.HasPrefix(k, pk+".") {
						done = true
						if i < len(c.Args) {
							for q := range a.roots(c.Args[i], 0) {
								r[q] = true
							}
						}
					}
				}
				if !done {
					r[k] = true
				}
			}
		}
	}
	return r
}

// fnExt: what every run of f that returns normally on some path adds to.
func (a *recur) fnExt(f *ssa.Function, d int) map[string]bool {
	r := map[string]bool{}
	if a.busy[f] {
		return r
	}
	a.busy[f] = true
	defer delete(a.busy, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.BinOp); ok {
				continue
			}
			for k := range a.extensions(in, d) {
				r[k] = true
			}
		}
	}
	return r
}

// asks: the histories a condition depends on.
func (a *recur) asks(v ssa.Value) map[string]bool {
	r := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 14 || seen[v] {
			return
		}
		seen[v] = true
		if historyType(v.Type()) {
			for k := range a.roots(v, 0) {
				r[k] = true
			}
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			walk(x.X, d+1)
			walk(x.Y, d+1)
		case *ssa.UnOp:
			walk(x.X, d+1)
		case *ssa.Extract:
			walk(x.Tuple, d+1)
		case *ssa.Lookup:
			walk(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				return
			}
			for _, p := range x.Block().Preds {
				if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
					walk(i.Cond, d+1)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				walk(x.Call.Args[0], d+1)
				return
			}
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return
			}
			if f := x.Call.StaticCallee(); f != nil && a.ring[f] {
				return // what the recursion itself returns
			} else if f == nil && !x.Call.IsInvoke() {
				for _, g := range a.cellFns(x.Call.Value, 0) {
					if a.ring[g] {
						return
					}
				}
			}
			for _, q := range x.Call.Args {
				if historyType(q.Type()) {
					for k := range a.roots(q, 0) {
						r[k] = true
					}
				}
			}
			var fs []*ssa.Function
			if f := x.Call.StaticCallee(); f != nil {
				fs = append(fs, f)
			} else if !x.Call.IsInvoke() {
				fs = a.cellFns(x.Call.Value, 0)
			}
			for _, f := range fs {
				if !strings.HasPrefix(fnPkgPath(f), modPath) {
					continue
				}
				// what the callee asks besides its parameters
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if l, ok := in.(*ssa.Lookup); ok {
							for k := range a.roots(l.X, 0) {
								r[k] = true
							}
						}
						if cc, ok := in.(*ssa.Call); ok && d < 6 {
							for _, q := range cc.Call.Args {
								if historyType(q.Type()) {
									for k := range a.roots(q, 0) {
										r[k] = true
									}
								}
							}
						}
					}
				}
			}
		case *ssa.ChangeType:
			walk(x.X, d+1)
		case *ssa.FreeVar, *ssa.Parameter, *ssa.Alloc, *ssa.FieldAddr:
		}
	}
	walk(v, 0)
	return r
}

func blockReach(from *ssa.BasicBlock, stop *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if m[b] || b == stop {
			continue
		}
		m[b] = true
		st = append(st, b.Succs...)
	}
	return m
}

// onEvery: every path from the entry of f to the instruction passes something that extends h.
func (a *recur) onEvery(f *ssa.Function, site ssa.Instruction, h func(string) bool) bool {
	sb := site.Block()
	ext := func(x *ssa.BasicBlock) bool {
		for _, in := range x.Instrs {
			if x == sb && after(in, site) {
				return false
			}
			for k := range a.extensions(in, 0) {
				if h(k) {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || ext(x) {
			continue
		}
		seen[x] = true
		if x == sb {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

// remembers: the cycle is taken only after a history said that this is new, and the history is extended on the way round.
func (a *recur) remembers(path []*recEdge) (string, bool) {
	a.ring = map[*ssa.Function]bool{}
	defer func() { a.ring = nil }()
	for _, e := range path {
		a.ring[e.From] = true
	}
	for i, e := range path {
		f, site := e.From, e.Site
		sb := site.Block()
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cut := false
			for _, s := range b.Succs {
				cut = cut || !blockReach(s, b)[sb]
			}
			if !cut {
				continue
			}
			for h := range a.asks(iff.Cond) {
				// the test, or another one asking the same history, dominates the call
				dom := b.Dominates(sb)
				for _, b2 := range f.Blocks {
					if i2, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.If); ok && !dom && b2.Dominates(sb) && a.asks(i2.Cond)[h] {
						dom = true
					}
				}
				if dom && a.extended(append(append([]*recEdge{}, path[i:]...), path[:i]...), h) && !a.otherKeys(f, site, h) {
					return a.w.pos(iff.Cond.Pos()), true
				}
			}
		}
	}
	return "", false
}

// extended: going round the cycle from its first function adds to what that function calls h.
func (a *recur) extended(path []*recEdge, h string) bool {
	f := path[0].From
	var param *ssa.Parameter
	for _, p := range f.Params {
		k := fmt.Sprintf("%p:%s", f, p.Name())
		if h == k || strings.HasPrefix(h, k+".") {
			param = p
		}
	}
	shared := false // a map or an object, changed in place
	if param != nil {
		switch param.Type().Underlying().(type) {
		case *types.Map, *types.Pointer:
			shared = true
		}
	}
	cur := map[ssa.Value]relSet{}
	if param != nil {
		cur[param] = relSet{{param, rcSame}: true}
	}
	names := map[string]bool{h: true}
	grown := false
	for _, e := range path {
		g := e.From
		if param == nil || shared {
			own := map[string]bool{}
			for k := range names {
				own[k] = true
			}
			hit := func(k string) bool {
				for n := range own {
					if k == n || strings.HasPrefix(k, n+".") {
						return true
					}
				}
				return false
			}
			if param == nil && strings.HasPrefix(h, fmt.Sprintf("%p:", f)) && !strings.Contains(h, ".") {
				// a local of this activation: it lasts only if it is handed on
				lasts := false
				for _, v := range e.Site.Common().Args {
					switch v.Type().Underlying().(type) {
					case *types.Map, *types.Pointer:
						lasts = lasts || a.roots(v, 0)[h]
					}
				}
				if !lasts {
					return false
				}
			}
			if a.forgets(g, e.Site, hit) {
				return false
			}
			if a.onEvery(g, e.Site, hit) {
				if param == nil {
					return true
				}
				grown = true
			}
		}
		next := map[ssa.Value]relSet{}
		names = map[string]bool{h: true}
		for k, rs := range e.Arg {
			n := relSet{}
			for q := range rs {
				if c, ok := cur[q.In]; ok && q.In != nil {
					n.add(c, q.C)
				}
			}
			if len(n) == 0 {
				continue
			}
			next[k] = n
			for q := range n {
				if q.C == rcSame {
					names[fmt.Sprintf("%p:%s", e.To, k.Name())] = true
				}
			}
		}
		// what closures made in g have captured
		for _, fv := range e.To.FreeVars {
			for x := range a.roots(fv, 0) {
				for k, c := range cur {
					if fmt.Sprintf("%p:%s", k.Parent(), k.Name()) == x && next[fv] == nil {
						n := relSet{}
						n.add(c, rcSame)
						next[fv] = n
					}
				}
			}
		}
		cur = next
	}
	if param != nil && shared && grown {
		// the next round has to get the history that this one added to
		for q := range cur[param] {
			if q.In == ssa.Value(param) {
				return true
			}
		}
	}
	if param != nil && !shared {
		for q := range cur[param] {
			if q.C == rcExt || q.C == rcUp || q.C == rcDown {
				return true
			}
		}
	}
	return false
}

// otherKeys: the function asks the history for one thing and adds only others to it,
// which are not what it hands on either.
func (a *recur) otherKeys(f *ssa.Function, site ssa.CallInstruction, h string) bool {
	var asked, added []ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			as, ad := a.keys(in, h, 0)
			asked = append(asked, as...)
			added = append(added, ad...)
		}
	}
	if len(asked) == 0 || len(added) == 0 {
		return false
	}
	args := site.Common().Args
	for _, x := range added {
		for _, y := range asked {
			if sameExpr(x, y, 0) {
				return false
			}
		}
		// what is added is about what is handed on
		for _, v := range sliceOf(x, 6) {
			for _, y := range args {
				if !isParamValue(v) && sameExpr(v, y, 0) && !historyType(v.Type()) {
					return false
				}
			}
		}
	}
	return true
}

// isParamValue: a parameter, also read from the variable it is kept in.
func isParamValue(v ssa.Value) bool {
	if _, ok := v.(*ssa.Parameter); ok {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		_, fv := u.X.(*ssa.FreeVar)
		return fv
	}
	for _, x := range *al.Referrers() {
		if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if _, isP := st.Val.(*ssa.Parameter); !isP {
				return false
			}
		}
	}
	return true
}

// sliceOf: the values a value is computed from.
func sliceOf(v ssa.Value, d int) []ssa.Value {
	r := []ssa.Value{v}
	if in, ok := v.(ssa.Instruction); ok && d > 0 {
		for _, o := range in.Operands(nil) {
			if *o != nil {
				r = append(r, sliceOf(*o, d-1)...)
			}
		}
	}
	return r
}

// keys: what the instruction asks the history for, and what it adds to it.
func (a *recur) keys(in ssa.Instruction, h string, d int) (asked, added []ssa.Value) {
	hit := func(v ssa.Value) bool {
		for k := range a.roots(v, 0) {
			if k == h || strings.HasPrefix(k, h+".") {
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && hit(x.X) {
			asked = append(asked, x.Index)
		}
	case *ssa.MapUpdate:
		if hit(x.Map) {
			added = append(added, x.Key)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || d > 2 || !strings.HasPrefix(fnPkgPath(f), modPath) || a.ring[f] {
			return
		}
		for i, q := range x.Call.Args {
			if i >= len(f.Params) || !historyType(q.Type()) || !hit(q) {
				continue
			}
			ph := fmt.Sprintf("%p:%s", f, f.Params[i].Name())
			for _, b := range f.Blocks {
				for _, y := range b.Instrs {
					as, ad := a.keys(y, ph, d+1)
					for j, ks := range [][]ssa.Value{as, ad} {
						for _, k := range ks {
							for n, p := range f.Params {
								if k == ssa.Value(p) && n < len(x.Call.Args) {
									if j == 0 {
										asked = append(asked, x.Call.Args[n])
									} else {
										added = append(added, x.Call.Args[n])
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

// drops: what the instruction empties (all of it) or removes a member from, by root.
// What is deferred comes too late to matter.
func (a *recur) drops(in ssa.Instruction, d int) (all, one map[string]bool) {
	all, one = map[string]bool{}, map[string]bool{}
	call, ok := in.(*ssa.Call)
	if !ok || d > 3 {
		return
	}
	c := call.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "clear":
			return a.roots(c.Args[0], 0), one
		case "delete":
			return all, a.roots(c.Args[0], 0)
		}
		return
	}
	switch calleePath(c) {
	case "sync.Map.Clear":
		return a.roots(c.Args[0], 0), one
	case "sync.Map.Delete":
		return all, a.roots(c.Args[0], 0)
	}
	f := c.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || a.ring[f] || !strings.HasPrefix(fnPkgPath(f), modPath) {
		return
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			al, on := a.drops(x, d+1)
			for i, m := range []map[string]bool{al, on} {
				to := []map[string]bool{all, one}[i]
				for k := range m {
					done := false
					for j, p := range f.Params {
						pk := fmt.Sprintf("%p:%s", f, p.Name())
						if k == pk || strings.HasPrefix(k, pk+".") {
							done = true
							if j < len(c.Args) {
								for q := range a.roots(c.Args[j], 0) {
									to[q] = true
								}
							}
						}
					}
					if !done {
						to[k] = true
					}
				}
			}
		}
	}
	return
}

// forgets: on a path to the instruction the history is emptied, or loses a member and
// gets no other.
func (a *recur) forgets(f *ssa.Function, site ssa.Instruction, h func(string) bool) bool {
	any := func(m map[string]bool) bool {
		for k := range m {
			if h(k) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if in == site {
				continue
			}
			all, one := a.drops(in, 0)
			emptied := any(all)
			if !emptied && !any(one) {
				continue
			}
			// forward from here
			type at struct {
				b *ssa.BasicBlock
				i int
			}
			seen := map[*ssa.BasicBlock]bool{}
			st := []at{{b, i + 1}}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				stop := false
				for _, y := range x.b.Instrs[x.i:] {
					if y == site {
						return true
					}
					if !emptied && any(a.extensions(y, 0)) {
						stop = true
						break
					}
				}
				if stop {
					continue
				}
				for _, s := range x.b.Succs {
					if !seen[s] {
						seen[s] = true
						st = append(st, at{s, 0})
					}
				}
			}
		}
	}
	return false
}

func after(a, b ssa.Instruction) bool {
	for _, in := range b.Block().Instrs {
		if in == b {
			return true
		}
		if in == a {
			return false
		}
	}
	return false
}

// ---- cycles ----------------------------------------------------------------

type cycleVerdict struct {
	Head  *ssa.Function
	Edges []*recEdge
	Kind  string // "descends", "remembers", "repeats", "undecided"
	Why   string
	Dir   map[relClass]bool
}

func (a *recur) cycles(scc []*ssa.Function, limit int) (out []*cycleVerdict, trunc bool) {
	in := map[*ssa.Function]int{}
	sort.Slice(scc, func(i, j int) bool { return scc[i].Pos() < scc[j].Pos() })
	for i, f := range scc {
		in[f] = i + 1
	}
	for hi, head := range scc {
		var path []*recEdge
		onp := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			onp[f] = true
			for _, e := range a.edgesOf(f) {
				if in[e.To] == 0 || in[e.To] < hi+1 {
					continue
				}
				path = append(path, e)
				if e.To == head {
					if len(out) < limit {
						out = append(out, a.judge(head, append([]*recEdge{}, path...)))
					} else {
						trunc = true
					}
				} else if !onp[e.To] && len(out) < limit {
					walk(e.To)
				}
				path = path[:len(path)-1]
			}
			delete(onp, f)
		}
		walk(head)
	}
	return
}

func (a *recur) judge(head *ssa.Function, path []*recEdge) *cycleVerdict {
	v := &cycleVerdict{Head: head, Edges: path, Dir: map[relClass]bool{}}
	// relations of each function's inputs to the head's inputs
	cur := map[ssa.Value]relSet{}
	for _, p := range head.Params {
		cur[p] = relSet{{p, rcSame}: true}
	}
	for _, p := range head.FreeVars {
		cur[p] = relSet{{p, rcSame}: true}
	}
	flag := false
	for pi, e := range path {
		next := map[ssa.Value]relSet{}
		for k, rs := range e.Arg {
			n := relSet{}
			for q := range rs {
				if q.In == nil {
					n[rel{nil, rcUnk}] = true
					continue
				}
				c, ok := cur[q.In]
				if !ok {
					n[rel{nil, rcUnk}] = true
					continue
				}
				n.add(c, q.C)
			}
			next[k] = n
		}
		cur = next
		nx := path[(pi+1)%len(path)]
		for _, c := range e.Const {
			flag = flag || a.decidedBy(nx, c)
		}
	}
	last := path[len(path)-1]
	if pos, ok := a.remembers(path); ok {
		v.Kind, v.Why = "remembers", pos
		return v
	}
	for _, e := range path {
		// a type parameter's own constraint: followed only once it is known to resolve
		if a.resolvedConstraint(e) {
			v.Kind, v.Why = "remembers", "the constraint is known to resolve"
			return v
		}
	}
	if pos, ok := a.settles(path); ok {
		v.Kind, v.Why = "remembers", pos
		return v
	}
	nm, danger := 0, 0
	open := false
	var desc []string
	inputs := map[ssa.Value]bool{}
	for _, p := range last.To.Params {
		inputs[p] = true
	}
	for _, p := range last.To.FreeVars {
		// captured per call: only when the closure is made inside the cycle
		for _, mc := range a.callIn[last.To] {
			for _, e := range path {
				if mc.Parent() == e.From {
					inputs[p] = true
				}
			}
		}
	}
	var ps []ssa.Value
	for p := range inputs {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		t := p.Type()
		if _, ok := p.(*ssa.FreeVar); ok {
			t = deref(t)
		}
		if !measured(t) {
			continue
		}
		if counted(t, cur[p]) {
			continue // a counter ends nothing by itself: it has to be asked, see remembers
		}
		nm++
		best := rcUnk
		all := true
		strict := len(cur[p]) > 0
		for q := range cur[p] {
			switch q.C {
			case rcDown, rcUp:
				all = all && isStringT(t) && cur[p][rel{q.In, rcSame}]
				if measuredCarrier(t) {
					v.Dir[q.C] = true
				}
			case rcUnk:
				open = true
				v.Why += " " + p.Name() + "?"
				strict = false
				all = false
			default:
				best = q.C
				strict = false
			}
		}
		if strict {
			desc = append(desc, p.Name())
		}
		if all && len(cur[p]) > 0 {
			danger++
			v.Why += fmt.Sprintf(" %s: %s", p.Name(), best)
		}
	}
	switch {
	case len(desc) > 0:
		v.Kind, v.Why = "descends", strings.Join(desc, ",")
	case nm > 0 && danger == nm && !open && !flag:
		v.Kind = "repeats"
	default:
		v.Kind = "undecided"
	}
	return v
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func measuredCarrier(t types.Type) bool { return isNodeish(t) }

// resolvedConstraint: the edge hands on the constraint of a type parameter, behind a test that its base constraint exists.
func (a *recur) resolvedConstraint(e *recEdge) bool {
	sb := e.Site.Block()
	for _, b := range e.From.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(sb) {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.X) || isNilConst(bo.Y)) {
			continue
		}
		x := bo.X
		if isNilConst(x) {
			x = bo.Y
		}
		if c, ok := x.(*ssa.Call); ok && strings.HasSuffix(strings.ToLower(realPath(a.w, &c.Call)), "getbaseconstraintoftype") {
			nonnil := 0
			if bo.Op == token.EQL {
				nonnil = 1
			}
			if b.Succs[nonnil].Dominates(sb) {
				return true
			}
		}
	}
	return false
}

// counted: a number that only moves.
func counted(t types.Type, s relSet) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || len(s) == 0 {
		return false
	}
	for q := range s {
		if q.C != rcUp && q.C != rcDown {
			return false
		}
	}
	return true
}

// decidedBy: whether the call is made depends on the value.
func (a *recur) decidedBy(e *recEdge, c ssa.Value) bool {
	sb := e.Site.Block()
	for _, b := range e.From.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !dependsOn(iff.Cond, c, 0, map[ssa.Value]bool{}) {
			continue
		}
		for _, s := range b.Succs {
			if !blockReach(s, b)[sb] {
				return true
			}
		}
	}
	return false
}

// settles: the function calls itself with a value worked out from what stays the same, and only
// if it differs from the one it was given: the second time it does not.
func (a *recur) settles(path []*recEdge) (string, bool) {
	if len(path) != 1 || path[0].From != path[0].To {
		return "", false
	}
	e := path[0]
	f := e.From
	args := e.Site.Common().Args
	for i, p := range f.Params {
		if i >= len(args) || len(args) != len(f.Params) {
			return "", false
		}
		if dependsOn(args[i], p, 0, map[ssa.Value]bool{}) {
			continue
		}
		fixed := true
		for j, q := range f.Params {
			if j != i && dependsOn(args[i], q, 0, map[ssa.Value]bool{}) && args[j] != ssa.Value(q) {
				fixed = false
			}
		}
		if !fixed {
			continue
		}
		sb := e.Site.Block()
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !b.Dominates(sb) {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !(bo.X == args[i] && bo.Y == ssa.Value(p) || bo.Y == args[i] && bo.X == ssa.Value(p)) {
				continue
			}
			differ := 0
			if bo.Op == token.EQL {
				differ = 1
			} else if bo.Op != token.NEQ {
				continue
			}
			if b.Succs[differ].Dominates(sb) {
				return a.w.pos(iff.Cond.Pos()), true
			}
		}
	}
	return "", false
}

package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pVfs  = tsgoPath + "/internal/vfs"
	pComp = tsgoPath + "/internal/compiler"
)

func init() {
	register("C14", "Override text replaces the text on disk",
		"Over the supergraph of the headless entry: the file system handed to every part of the linter is traced through its wrappers to the overlay, assuming that the request has overrides; the overlay's map is filled from the request's overrides in a complete loop, under keys normalised like the requested names. Each method of the overlay is evaluated under both outcomes of the lookup (the given text / the underlying method with the same arguments). Source files are parsed from the text the file system returns. Call-graph reachability shows that no other repository code reads files.",
		checkC14)
}

type overrides struct {
	r      *R
	h      *Headless
	fs     *types.Interface
	field  string // Go field of the request's overrides
	g      *Graph // with overrides
	cut    Cut
	layers map[Origin]bool // overlays met
}

func (c *overrides) isFS(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pVfs && n.Obj().Name() == "FS" {
		return true
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return false
	}
	return types.Implements(t, c.fs)
}

// given: the value is the request's map of overrides.
func (c *overrides) given(v VV) bool {
	if _, ok := v.V.Type().Underlying().(*types.Map); !ok {
		return false
	}
	os := c.h.G.Origins(v)
	for _, o := range os {
		if !strings.HasSuffix(o.Path, "."+c.field) {
			return false
		}
	}
	return len(os) > 0
}

// emptyWhen: the truth value of the condition that goes with an empty map of overrides.
func (c *overrides) emptyWhen(f *Frame, v ssa.Value) (empty, ok bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			e, ok := c.emptyWhen(f, x.X)
			return !e, ok
		}
	case *ssa.BinOp:
		a, b, op := x.X, x.Y, x.Op.String()
		if isConst(a) {
			a, b = b, a
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
		}
		if k, isC := b.(*ssa.Const); isC && k.Value == nil && c.given(VV{f, a}) {
			return op == "==", op == "==" || op == "!="
		}
		l := lenArg(a)
		n, isC := constInt(b)
		if l == nil || !isC || !c.given(VV{f, l}) {
			return false, false
		}
		switch {
		case n == 0 && (op == "==" || op == "<="), n == 1 && op == "<":
			return true, true
		case n == 0 && (op == "!=" || op == ">"), n == 1 && op == ">=":
			return false, true
		}
	}
	return false, false
}

func (c *overrides) isOverlay(t types.Type) (fsField, mapField string) {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || !types.Implements(types.NewPointer(n), c.fs) {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if c.isFS(ft) {
			fsField = st.Field(i).Name()
		}
		if m, ok := ft.Underlying().(*types.Map); ok && types.Identical(m.Key(), types.Typ[types.String]) && types.Identical(m.Elem(), types.Typ[types.String]) {
			mapField = st.Field(i).Name()
		}
	}
	if fsField == "" || mapField == "" {
		return "", ""
	}
	return
}

// tree: "" when every file system the value can be reads through an overlay.
func (c *overrides) tree(v VV, d int) string {
	if d > 12 {
		return "too many layers"
	}
	os := c.g.Origins(v)
	if len(os) == 0 {
		return "unknown file system"
	}
	for _, o := range os {
		switch x := o.V.(type) {
		case *ssa.Const:
			continue
		case *ssa.Alloc:
			if o.Path == "" {
				if _, m := c.isOverlay(x.Type()); m != "" {
					c.layers[o] = true
					continue
				}
				// another layer of the repository: look through its file system field
				if n := namedOf(x.Type()); n != nil {
					if st, ok := n.Underlying().(*types.Struct); ok {
						found := false
						for i := 0; i < st.NumFields(); i++ {
							if c.isFS(st.Field(i).Type()) {
								found = true
								for _, p := range c.g.OriginsPath(VV{o.F, x}, "*."+st.Field(i).Name()) {
									if p.V == x {
										return "the layer " + n.Obj().Name() + " is not understood"
									}
									if w := c.tree(VV{p.F, p.V}, d+1); p.Path == "" && w != "" || p.Path != "" {
										return w
									}
								}
							}
						}
						if found {
							continue
						}
					}
				}
			}
		case *ssa.Call:
			cc := &x.Call
			if o.Path == "" || o.Path == "#0" {
				if cc.IsInvoke() || cc.Signature().Recv() != nil {
					if !strings.HasPrefix(realPath(c.h.W, cc), tsgoPath) {
						return "the file system of " + o.String()
					}
					continue // the engine's: what it was given
				}
				any := false
				for _, a := range cc.Args {
					if !c.isFS(a.Type()) {
						continue
					}
					any = true
					if w := c.tree(VV{o.F, a}, d+1); w != "" {
						return w
					}
				}
				if any {
					continue
				}
				return "the bare file system of " + realPath(c.h.W, cc)
			}
		}
		return "an unknown file system: " + o.String()
	}
	return ""
}

func checkC14(r *R) {
	w := r.W
	r.Rule("one-file-system", "every part of the linter is given the file system with the overrides, whenever there are any")
	r.Rule("override-kept", "each override of the request is entered, with its exact text, under its name normalised like the requested names")
	r.Rule("overlay-method", "the overlay answers with the given text when there is one and otherwise exactly as the underlying file system")
	r.Rule("parsed-text", "a source file is parsed from the text the file system returns for its name")
	r.Rule("no-other-reads", "no repository code reads files in another way")
	h := headless(r)
	if h == nil {
		return
	}
	fst := w.namedType(pVfs, "FS")
	if !r.Need(fst != nil, "the engine's file system interface") {
		return
	}
	c := &overrides{r: r, h: h, fs: fst.Underlying().(*types.Interface), layers: map[Origin]bool{}}
	// the member of the request
	sc := w.L.Pkgs[pCmd]
	var st *types.Struct
	for _, n := range sc.Types.Scope().Names() {
		tn, ok := sc.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if f := jsonField(s, "source_overrides"); f != nil {
			c.field, st = f.Name(), s
			m, ok := f.Type().Underlying().(*types.Map)
			r.Ob("override-kept", "member source_overrides", ok && types.Identical(m.Key(), types.Typ[types.String]) && types.Identical(m.Elem(), types.Typ[types.String]), w.pos(f.Pos()), "the overrides are not a map from names to texts")
		}
	}
	if !r.Need(st != nil, "the member source_overrides of a request") {
		return
	}
	c.cut = func(from Node, e Edge) bool {
		x, ok := from.I.(*ssa.If)
		if !ok {
			return false
		}
		empty, ok := c.emptyWhen(from.F, x.Cond)
		return ok && (e.Branch == 1) == empty
	}
	c.g = h.G.Under(c.cut)
	c.flows()
	c.filled()
	c.methods()
	c.parsed()
	c.otherReads()
}

// flows: what is handed around is the overlay.
func (c *overrides) flows() {
	r, h := c.r, c.h
	check := func(n Node, v ssa.Value, what string) {
		why := c.tree(VV{n.F, v}, 0)
		r.Ob("one-file-system", what+" in "+h.where(n), why == "", h.G.nodePos(n), "with overrides in the request this reads "+why)
	}
	for _, n := range h.Nodes {
		if !c.g.alive(n) {
			continue
		}
		switch x := n.I.(type) {
		case *ssa.Store:
			if !c.isFS(x.Val.Type()) {
				continue
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if _, m := c.isOverlay(fa.X.Type()); m != "" {
					continue // what lies under the overlay
				}
				check(n, x.Val, "stored file system")
			}
		default:
			cc := callOf(n)
			if cc == nil || !h.G.Opaque(n) {
				continue
			}
			if cc.IsInvoke() && c.isFS(cc.Value.Type()) {
				if _, m := c.isOverlay(recvOf(n.F.Fn)); m != "" {
					continue // the overlay asking what it covers
				}
				check(n, cc.Value, "use of the file system")
				continue
			}
			if sig := cc.Signature(); sig.Recv() == nil && sig.Results().Len() == 1 && c.isFS(sig.Results().At(0).Type()) {
				continue // a wrapper: looked through at its uses
			}
			for _, a := range cc.Args {
				if c.isFS(a.Type()) {
					check(n, a, "argument of "+realPath(h.W, cc))
				}
			}
		}
	}
	r.Min("one-file-system", 4)
	r.Need(len(c.layers) > 0, "the overlay between the linter and the disk")
}

func recvOf(f *ssa.Function) types.Type {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if rv := f.Signature.Recv(); rv != nil {
		return rv.Type()
	}
	return types.Typ[types.Invalid]
}

// chain strips the conversions applied to a name.
func (c *overrides) chain(v VV) (Anchor, string) {
	var steps []string
	for i := 0; i < 8; i++ {
		a := c.h.anchor(v)
		call, ok := a.V.(*ssa.Call)
		if a.Kind != "call" || a.Path != "" || !ok || call.Call.IsInvoke() || len(call.Call.Args) == 0 {
			return a, strings.Join(steps, " ")
		}
		s := realPath(c.h.W, &call.Call)
		for _, x := range call.Call.Args[1:] {
			s += "," + originStrings(c.h.G.Origins(VV{a.F, x}))
		}
		steps = append(steps, s)
		v = VV{a.F, call.Call.Args[0]}
	}
	return Anchor{Kind: "val"}, ""
}

// keysOf: the list holds exactly the keys of the overrides.
func (c *overrides) keysOf(v VV, d int) bool {
	if d > 6 {
		return false
	}
	a := c.h.anchor(v)
	call, ok := a.V.(*ssa.Call)
	if a.Kind != "call" || a.Path != "" || !ok || len(call.Call.Args) == 0 {
		return false
	}
	p := calleePath(&call.Call)
	if i := strings.Index(p, "["); i >= 0 {
		p = p[:i]
	}
	switch p {
	case "maps.Keys":
		return c.given(VV{a.F, call.Call.Args[0]})
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc", "slices.SortedStableFunc":
		return c.keysOf(VV{a.F, call.Call.Args[0]}, d+1)
	}
	return false
}

func (c *overrides) filled() {
	r, h := c.r, c.h
	// how requested names are normalised
	fp := h.payloadConfigField("file_paths")
	if !r.Need(fp != "", "the member file_paths of a request configuration") {
		return
	}
	chains := map[string]bool{}
	note := func(n Node, v ssa.Value) {
		if !types.Identical(v.Type().Underlying(), types.Typ[types.String]) {
			return
		}
		a, s := c.chain(VV{n.F, v})
		if a.Kind != "elem" || a.Path != "" {
			return
		}
		if b := h.anchor(VV{a.F, a.Coll}); strings.HasSuffix(b.Path, "."+fp) {
			chains[s] = true
		}
	}
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.MapUpdate:
			note(n, x.Key)
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.IndexAddr); ok {
				note(n, x.Val)
			}
		case *ssa.Call:
			if _, es, ok := h.appendElems(n); ok {
				for _, e := range es {
					note(Node{F: e.F, I: n.I}, e.V)
				}
			}
		}
	}
	if !r.Need(len(chains) > 0, "the collection of the requested names") {
		return
	}
	var cs []string
	for s := range chains {
		cs = append(cs, s)
	}
	sort.Strings(cs)
	names := func(con, s, pos string) {
		r.Ob("override-kept", con+": names", len(cs) == 1 && cs[0] == s, pos, "overrides are entered under names converted by ["+s+"], requested names are converted by ["+strings.Join(cs, "] or [")+"]")
	}
	uses := h.find(func(n Node) bool {
		cc := callOf(n)
		if cc == nil || !h.G.Opaque(n) {
			return false
		}
		if sig := cc.Signature(); sig.Recv() == nil && sig.Results().Len() == 1 && c.isFS(sig.Results().At(0).Type()) {
			return false
		}
		if cc.IsInvoke() && c.isFS(cc.Value.Type()) {
			return true
		}
		for _, a := range cc.Args {
			if c.isFS(a.Type()) {
				return true
			}
		}
		return false
	})
	done := map[Origin]bool{}
	for _, l := range sortOrigins(c.layers) {
		_, mf := c.isOverlay(l.V.Type())
		ms := c.g.OriginsPath(VV{l.F, l.V}, "*."+mf)
		r.Need(len(ms) > 0, "the overrides held by the overlay")
		for _, m := range ms {
			if done[m] {
				continue
			}
			done[m] = true
			pos := h.W.pos(m.V.Pos())
			con := "overrides of the overlay in " + fnName(l.F.Fn)
			if strings.HasSuffix(m.Path, "."+c.field) {
				names(con, "", pos)
				continue
			}
			mk, ok := m.V.(*ssa.MakeMap)
			if !ok || m.Path != "" {
				r.Bad("override-kept", con, pos, "not a map filled from the request: "+m.String())
				continue
			}
			c.fill(con, m.F, mk, names, uses)
		}
	}
	// the request's own map stays as it came
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.MapUpdate:
			if c.given(VV{n.F, x.Map}) {
				r.Bad("override-kept", "request changed in "+h.where(n), h.G.nodePos(n), "the overrides of the request are changed")
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if fv, _, _ := fieldOf(fa); fv != nil && fv.Name() == c.field && fv.Pkg() != nil && fv.Pkg().Path() == pCmd {
					r.Bad("override-kept", "request changed in "+h.where(n), h.G.nodePos(n), "the overrides of the request are replaced")
				}
			}
		default:
			if cc := callOf(n); cc != nil && h.G.Opaque(n) {
				for i, a := range cc.Args {
					if _, ok := a.Type().Underlying().(*types.Map); ok && c.given(VV{n.F, a}) && !readsMap(cc, i) {
						r.Bad("override-kept", "request changed in "+h.where(n), h.G.nodePos(n), "the overrides of the request are handed to "+calleePath(cc))
					}
				}
			}
		}
	}
}

func sortOrigins(m map[Origin]bool) []Origin {
	var r []Origin
	for o := range m {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].F.ID != r[j].F.ID {
			return r[i].F.ID < r[j].F.ID
		}
		return r[i].String() < r[j].String()
	})
	return r
}

// readsMap: the callee leaves its i-th argument, a map, alone.
func readsMap(cc *ssa.CallCommon, i int) bool {
	p := calleePath(cc)
	if k := strings.Index(p, "["); k >= 0 {
		p = p[:k]
	}
	switch p {
	case "builtin.len", "maps.Keys", "maps.Values", "maps.All", "maps.Clone", "maps.Equal":
		return true
	case "maps.Copy":
		return i == 1
	}
	return false
}

func (c *overrides) fill(con string, mf *Frame, mk *ssa.MakeMap, names func(con, s, pos string), uses []Node) {
	r, h := c.r, c.h
	isM := func(v VV) bool {
		for _, o := range h.G.Origins(v) {
			if o.V == mk && o.F == mf {
				return true
			}
		}
		return false
	}
	var ups []Node
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.MapUpdate:
			if isM(VV{n.F, x.Map}) {
				ups = append(ups, n)
			}
		default:
			if cc := callOf(n); cc != nil && h.G.Opaque(n) {
				for i, a := range cc.Args {
					if _, ok := a.Type().Underlying().(*types.Map); ok && isM(VV{n.F, a}) && !readsMap(cc, i) {
						r.Bad("override-kept", con+": changed in "+h.where(n), h.G.nodePos(n), "entries can be removed or exchanged by "+calleePath(cc))
					}
				}
			}
		}
	}
	loops := 0
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if !h.set[Node{F: f, I: it.If}] {
				continue
			}
			var mine []Node
			for _, n := range ups {
				in := n.F == f && it.Loop.Body[n.I.Block()]
				if in {
					mine = append(mine, n)
				}
			}
			if len(mine) == 0 {
				continue
			}
			whole := it.Kind == "map" && c.given(VV{f, it.Coll}) || it.Kind == "slice" && c.keysOf(VV{f, it.Coll}, 0)
			if !whole {
				continue
			}
			loops++
			pos := h.G.nodePos(Node{F: f, I: it.If})
			why := h.iterEvery(f, it, func(n Node) bool { return isIn(mine, n) }, nil)
			r.Ob("override-kept", con+": all", why == "", pos, "an override can be left out: "+why)
			// not used before
			test := Node{F: f, I: it.If}
			bad, ok := h.mustPass([]Node{h.Entry}, func(n Node) bool { return n == test }, func(n Node) bool { return isIn(uses, n) }, c.cut)
			at := pos
			if !ok {
				at = h.G.nodePos(bad)
			}
			r.Ob("override-kept", con+": first", ok, at, "files can be read before the overrides are entered")
			for _, n := range mine {
				mu := n.I.(*ssa.MapUpdate)
				ka, s := c.chain(VV{n.F, mu.Key})
				va := h.anchor(VV{n.F, mu.Value})
				okE := false
				switch it.Kind {
				case "map":
					okE = ka.Kind == "item" && ka.V == it.Source && ka.F == f && ka.Path == "#1" && va.Kind == "item" && va.V == it.Source && va.F == f && va.Path == "#2"
					if lk, isL := va.V.(*ssa.Lookup); va.Kind == "lookup" && isL && c.given(VV{va.F, lk.X}) {
						okE = ka.Kind == "item" && ka.V == it.Source && ka.Path == "#1" && h.sameAnchor(h.anchor(VV{va.F, lk.Index}), ka)
					}
				case "slice":
					lk, isL := va.V.(*ssa.Lookup)
					okE = ka.Kind == "elem" && ka.Path == "" && ka.F == f && va.Kind == "lookup" && va.Path == "" && isL && c.given(VV{va.F, lk.X}) && h.sameAnchor(h.anchor(VV{va.F, lk.Index}), ka) && sameVal(ka.V, it.Index)
				}
				r.Ob("override-kept", con+": entry", okE, h.G.nodePos(n), "a name does not get the text given for it: name "+ka.String()+", text "+va.String())
				names(con, s, h.G.nodePos(n))
			}
			ups = slicesMinus(ups, mine)
		}
	}
	if loops == 0 {
		r.Bad("override-kept", con, h.W.pos(mk.Pos()), "the map is not filled in a loop over the overrides of the request")
	}
	for _, n := range ups {
		r.Bad("override-kept", con+": other entry in "+h.where(n), h.G.nodePos(n), "an entry that is not an override of the request, or one changed afterwards")
	}
}

func slicesMinus(a, b []Node) []Node {
	var r []Node
	for _, n := range a {
		if !isIn(b, n) {
			r = append(r, n)
		}
	}
	return r
}

// methods: the overlay under both outcomes of the lookup.
func (c *overrides) methods() {
	r, w := c.r, c.h.W
	done := map[*types.Named]bool{}
	for _, l := range sortOrigins(c.layers) {
		t := namedOf(l.V.Type())
		if done[t] {
			continue
		}
		done[t] = true
		fsF, mapF := c.isOverlay(t)
		for i := 0; i < c.fs.NumMethods(); i++ {
			m := c.fs.Method(i)
			fn := w.Prog.LookupMethod(types.NewPointer(t), m.Pkg(), m.Name())
			con := "method " + m.Name()
			if fn == nil || len(fn.Blocks) == 0 {
				r.Bad("overlay-method", con, w.pos(t.Obj().Pos()), "no code")
				continue
			}
			for fn.Synthetic != "" && len(fn.Blocks) > 0 { // promoted from an embedded field
				r.Ob("overlay-method", con+": embedded", m.Name() != "ReadFile" && m.Name() != "FileExists", w.pos(t.Obj().Pos()), "the overrides are not consulted")
				fn = nil
				break
			}
			if fn == nil {
				continue
			}
			c.method(con, fn, m, fsF, mapF)
		}
		// the fields are not changed after construction
		for _, f := range w.allFns {
			if !isRepoPath(fnPkgPath(f)) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || namedOf(fa.X.Type()) != t {
						continue
					}
					if _, isA := fa.X.(*ssa.Alloc); isA {
						continue
					}
					for _, ref := range *fa.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == fa {
							r.Bad("overlay-method", "field changed in "+fnName(f), w.pos(s.Pos()), "the overlay is changed after its construction")
						}
						if ld, ok := ref.(*ssa.UnOp); ok {
							for _, rr := range *ld.Referrers() {
								_, isUp := rr.(*ssa.MapUpdate)
								del := false
								if call, ok := rr.(*ssa.Call); ok && (isBuiltin(&call.Call, "delete") || isBuiltin(&call.Call, "clear")) {
									del = true
								}
								if isUp || del {
									r.Bad("overlay-method", "overrides changed in "+fnName(f), w.pos(rr.Pos()), "the overlay's map is changed after its construction")
								}
							}
						}
					}
				}
			}
		}
	}
}

func (c *overrides) method(con string, fn *ssa.Function, m *types.Func, fsF, mapF string) {
	r := c.r
	h := newHeadless(c.h.W, fn)
	pos := h.W.pos(fn.Pos())
	root := h.G.Root
	recv := fn.Params[0]
	isParam := func(v VV, i int) bool {
		os := h.G.Origins(v)
		return len(os) == 1 && os[0].V == fn.Params[i] && os[0].Path == "" && os[0].F == root
	}
	isField := func(v VV, field string) bool {
		os := h.G.Origins(v)
		return len(os) == 1 && os[0].V == recv && os[0].Path == "*."+field
	}
	// lookups in the map, and their outcome
	found := map[Origin]bool{}
	keyed := true
	for _, n := range h.Nodes {
		if lk, ok := n.I.(*ssa.Lookup); ok && isField(VV{n.F, lk.X}, mapF) {
			if len(fn.Params) < 2 || !isParam(VV{n.F, lk.Index}, 1) {
				keyed = false
				r.Bad("overlay-method", con+": name", h.G.nodePos(n), "an override is looked up under another name than the one asked for")
			}
			found[Origin{n.F, lk, "#1"}] = true
		}
	}
	assume := func(val bool) *Graph { return h.G.Under(h.onlyWhen(found, !val)) }
	rets := func(g *Graph, i int) []Origin {
		var res []Origin
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && g.alive(Node{F: root, I: ret}) && i < len(ret.Results) {
				res = append(res, g.Origins(VV{root, ret.Results[i]})...)
			}
		}
		return dedupO(res)
	}
	delegated := func(g *Graph, what string) {
		// every return comes after the delegated call with the same arguments, and gives its results
		var calls []Node
		for _, n := range h.Nodes {
			cc := callOf(n)
			if cc == nil || !g.alive(n) || !cc.IsInvoke() || !isField(VV{n.F, cc.Value}, fsF) {
				continue
			}
			if cc.Method.Name() != m.Name() {
				if m.Name() == "ReadFile" || m.Name() == "FileExists" || !pureFS(cc.Method.Name()) {
					r.Bad("overlay-method", con+": "+what, h.G.nodePos(n), "another method of the file system below is asked: "+cc.Method.Name())
				}
				continue
			}
			same := len(cc.Args) == len(fn.Params)-1
			for i := range cc.Args {
				same = same && isParam(VV{n.F, cc.Args[i]}, i+1)
			}
			r.Ob("overlay-method", con+": "+what+", arguments", same, h.G.nodePos(n), "the file system below is asked about something else")
			calls = append(calls, n)
		}
		nres := m.Type().(*types.Signature).Results().Len()
		for i := 0; i < nres; i++ {
			os := rets(g, i)
			ok := len(os) > 0
			for _, o := range os {
				want := ""
				if nres > 1 {
					want = "#" + string(rune('0'+i))
				}
				hit := false
				for _, n := range calls {
					if o.V == n.I.(ssa.Value) && o.F == n.F && o.Path == want {
						hit = true
					}
				}
				ok = ok && hit
			}
			r.Ob("overlay-method", con+": "+what+", result", ok, pos, "the answer is not that of the file system below: "+originStrings(os))
		}
		if nres == 0 {
			r.Ob("overlay-method", con+": "+what, len(calls) > 0, pos, "not passed on to the file system below")
		}
	}
	switch m.Name() {
	case "ReadFile", "FileExists":
		if len(found) == 0 {
			r.Bad("overlay-method", con, pos, "the overrides are not consulted")
			return
		}
		if !keyed {
			return
		}
		g := assume(true)
		isTrue := func(os []Origin) bool {
			for _, o := range os {
				if k, ok := o.V.(*ssa.Const); ok {
					if b, isB := constBool(k); isB && b {
						continue
					}
				}
				if found[o] {
					continue
				}
				return false
			}
			return len(os) > 0
		}
		if m.Name() == "FileExists" {
			os := rets(g, 0)
			r.Ob("overlay-method", con+": with override", isTrue(os), pos, "a file with an override is not always said to exist: "+originStrings(os))
		} else {
			os := rets(g, 0)
			ok := len(os) > 0
			for _, o := range os {
				ok = ok && o.V == recv && o.Path == "*."+mapF+"{}"
			}
			r.Ob("overlay-method", con+": with override", ok, pos, "what is read is not always the text of the override: "+originStrings(os))
			os = rets(g, 1)
			r.Ob("overlay-method", con+": with override, read", isTrue(os), pos, "reading a file with an override can fail: "+originStrings(os))
		}
		delegated(assume(false), "without override")
	default:
		delegated(h.G, "passed on")
	}
}

func pureFS(name string) bool {
	switch name {
	case "UseCaseSensitiveFileNames", "FileExists", "DirectoryExists", "Stat", "Realpath", "GetAccessibleEntries":
		return true
	}
	return false
}

// parsed: hosts of the engine that live in the repository.
func (c *overrides) parsed() {
	r, w := c.r, c.h.W
	ht := w.namedType(pComp, "CompilerHost")
	if !r.Need(ht != nil, "the engine's host interface") {
		return
	}
	hi := ht.Underlying().(*types.Interface)
	hosts := 0
	for _, p := range w.L.Order {
		if !p.Repo || p.Types == nil || !p.Bodies {
			continue
		}
		for _, nm := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if !types.Implements(pt, hi) {
				continue
			}
			hosts++
			for i := 0; i < hi.NumMethods(); i++ {
				m := hi.Method(i)
				fn := w.Prog.LookupMethod(pt, m.Pkg(), m.Name())
				if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
					continue
				}
				switch m.Name() {
				case "FS":
					c.hostFS(tn.Name(), fn)
				case "GetSourceFile":
					c.hostSource(tn.Name(), fn)
				}
			}
		}
	}
	r.Need(hosts > 0, "the host the engine reads files through")
}

// ownFS: the file system is the one the host was made with.
func (c *overrides) ownFS(h *Headless, fn *ssa.Function, v VV) bool {
	os := h.G.Origins(v)
	for _, o := range os {
		if o.V != fn.Params[0] || !strings.HasPrefix(o.Path, "*.") || strings.Count(o.Path, "*") != 1 {
			return false
		}
	}
	return len(os) > 0
}

func (c *overrides) hostFS(name string, fn *ssa.Function) {
	h := newHeadless(c.h.W, fn)
	ok := false
	for _, b := range fn.Blocks {
		if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			ok = c.ownFS(h, fn, VV{h.G.Root, ret.Results[0]})
			if !ok {
				break
			}
		}
	}
	c.r.Ob("one-file-system", "file system of "+name, ok, h.W.pos(fn.Pos()), "the engine is not given the file system the host was made with")
}

func (c *overrides) hostSource(name string, fn *ssa.Function) {
	r := c.r
	h := newHeadless(c.h.W, fn)
	con := "source files of " + name
	// the text: ReadFile of the own file system under the name asked for
	isText := func(os []Origin) (bool, string) {
		for _, o := range os {
			call, ok := o.V.(*ssa.Call)
			if !ok || o.Path != "#0" || !call.Call.IsInvoke() || call.Call.Method.Name() != "ReadFile" {
				return false, "the text parsed is not what was read: " + o.String()
			}
			if !c.ownFS(h, fn, VV{o.F, call.Call.Value}) {
				return false, "the text is read from another file system"
			}
			ns := h.G.Origins(VV{o.F, call.Call.Args[0]})
			for _, n := range ns {
				if n.V != fn.Params[1] && !paramCopy(n.V, fn.Params[1]) || !strings.HasSuffix(n.Path, ".FileName") {
					return false, "the text of another file is read: " + n.String()
				}
			}
		}
		return len(os) > 0, "no text"
	}
	n := 0
	var texts []Origin
	parses := map[Origin]bool{}
	for _, x := range h.Nodes {
		cc := callOf(x)
		if cc == nil || !h.G.Opaque(x) || !strings.HasSuffix(realPath(h.W, cc), "/parser.ParseSourceFile") {
			continue
		}
		n++
		parses[Origin{x.F, x.I.(ssa.Value), ""}] = true
		for _, a := range cc.Args {
			if types.Identical(a.Type(), types.Typ[types.String]) {
				texts = h.G.Origins(VV{x.F, a})
				ok, why := isText(texts)
				r.Ob("parsed-text", con, ok, h.G.nodePos(x), why)
			}
		}
	}
	if !r.Need(n > 0, "the parse of a source file in "+name) {
		return
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, o := range h.G.Origins(VV{h.G.Root, ret.Results[0]}) {
			if k, isC := o.V.(*ssa.Const); isC && k.Value == nil || parses[o] {
				continue
			}
			// out of a cache: found by the text
			call, ok := o.V.(*ssa.Call)
			good := false
			if ok && (strings.HasSuffix(calleePath(&call.Call), ".Load") || strings.HasSuffix(calleePath(&call.Call), ".LoadOrStore")) && len(call.Call.Args) > 1 {
				good = c.holdsText(h, VV{o.F, call.Call.Args[1]}, texts)
			}
			if lk, isL := o.V.(*ssa.Lookup); isL {
				good = c.holdsText(h, VV{o.F, lk.Index}, texts)
			}
			r.Ob("parsed-text", con+": returned", good, h.W.pos(ret.Pos()), "a source file that was not parsed from the text read: "+o.String())
		}
	}
}

// paramCopy: the cell a parameter is spilled into.
func paramCopy(v ssa.Value, p *ssa.Parameter) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	hit := false
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			n++
			hit = s.Val == p
		}
	}
	return n == 1 && hit
}

// holdsText: the key is the text, or has a field that is.
func (c *overrides) holdsText(h *Headless, key VV, texts []Origin) bool {
	same := func(os []Origin) bool {
		if len(os) == 0 || len(os) != len(texts) {
			return false
		}
		m := originSet(texts)
		for _, o := range os {
			if !m[o] {
				return false
			}
		}
		return true
	}
	if same(h.G.Origins(key)) {
		return true
	}
	t := key.V.Type()
	if mi, ok := key.V.(*ssa.MakeInterface); ok {
		t = mi.X.Type()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Typ[types.String]) && same(h.G.OriginsPath(key, "."+st.Field(i).Name())) {
			return true
		}
	}
	return false
}

// otherReads: nothing in the repository goes past the file system.
func (c *overrides) otherReads() {
	r, h := c.r, c.h
	w := h.W
	roots := []*ssa.Function{h.G.Root.Fn}
	for _, p := range w.L.Order {
		if p.Repo && p.Types != nil && p.Bodies {
			if sp := w.Prog.Package(p.Types); sp != nil {
				if f := sp.Func("init"); f != nil {
					roots = append(roots, f)
				}
			}
		}
	}
	a := newRTA(w, roots...)
	readers := map[string]bool{}
	for _, n := range []string{"os.ReadFile", "os.Open", "os.OpenFile", "os.ReadDir", "os.Stat", "os.Lstat", "os.DirFS", "os.OpenRoot", "os.Readlink", "io/ioutil.ReadFile", "io/ioutil.ReadDir", "syscall.Open", "syscall.Stat", "syscall.Lstat",
		"path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.EvalSymlinks", "golang.org/x/sys/unix.Open", "golang.org/x/sys/unix.Stat"} {
		readers[n] = true
	}
	repo := 0
	for f := range a.from {
		if isRepoPath(fnPkgPath(f)) {
			repo++
			r.Obl["no-other-reads"]++
			r.Disch["no-other-reads"]++
		}
	}
	for f, cs := range a.ext {
		nm := fnPkgPath(f) + "." + f.Name()
		if !readers[nm] {
			continue
		}
		for _, x := range cs {
			if x.f == nil || !isRepoPath(fnPkgPath(x.f)) {
				continue
			}
			if ci, ok := x.site.(ssa.CallInstruction); ok && len(ci.Common().Args) > 0 {
				if _, isC := ci.Common().Args[0].(*ssa.Const); isC {
					continue
				}
			}
			r.Bad("no-other-reads", nm+" in "+fnName(x.f), w.pos(x.site.Pos()), "repository code reads files without regard to the overrides")
		}
	}
	// the bare file system of the engine
	bare := w.lookupFn(tsgoPath+"/internal/vfs/osvfs", "", "FS")
	if !r.Need(bare != nil, "the engine's file system of the machine") {
		return
	}
	for f := range a.from {
		if !isRepoPath(fnPkgPath(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g, ok := ci.Common().Value.(*ssa.Function)
				if !ok || w.real(g) != bare {
					continue
				}
				inGraph := false
				for _, n := range h.Nodes {
					if n.I == in {
						inGraph = true
					}
				}
				r.Ob("no-other-reads", "file system of the machine in "+fnName(f), inGraph, w.pos(in.Pos()), "a file system without the overrides")
			}
		}
	}
	r.Min("no-other-reads", 500)
}

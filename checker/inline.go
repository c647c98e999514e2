package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Virtual inlining: the interprocedural control-flow graph of one entry point,
// with repo functions cloned per call site (context sensitive). Calls that leave
// the repo stay opaque; function values handed to them are "maybe, any number of
// times" callbacks. Goroutines become separate threads of the same graph.
// ---------------------------------------------------------------------------

type VV struct {
	F *Frame
	V ssa.Value
}

type frameKind int

const (
	kCall     frameKind = iota
	kCallback           // invoked by an opaque callee, 0..n times
	kParallel           // invoked by an opaque callee, concurrently, joined before it returns
	kThread             // goroutine
)

type Frame struct {
	ID     int
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.CallInstruction // in Parent
	At     ssa.Instruction     // RunDefers instruction, for deferred calls
	Args   []VV                // nil entries when unknown
	Bind   []VV
	Kind   frameKind
	Thread *Frame // root frame of the thread this frame runs in
	Depth  int
}

type Node struct {
	F  *Frame
	I  ssa.Instruction
	At ssa.Instruction // RunDefers at which a deferred call I executes
}

type siteKey struct {
	F  *Frame
	I  ssa.Instruction
	At ssa.Instruction
}

type Graph struct {
	W        *World
	Root     *Frame
	Frames   []*Frame
	kids     map[siteKey][]*Frame
	inlined  map[siteKey]bool // callee fully resolved and inlined
	Inline   func(f *ssa.Function) bool
	MaxDepth int

	stores   map[string][]memStore // by root id
	storesOK bool
	vid      map[VV]int
	omemo    map[okey][]Origin
	instrIdx map[ssa.Instruction]int

	live *liveness // only what can run under an assumption counts
}

// liveness: the nodes and branches that remain when some edges are taken out.
type liveness struct {
	nodes map[Node]bool
	cut   Cut
}

// Under returns a view of the graph in which the given edges are never taken.
func (g *Graph) Under(cut Cut) *Graph {
	c := *g
	c.resetMemo()
	c.live = nil
	e, _ := c.Entry(c.Root)
	nodes := c.Reach([]Node{e}, nil, cut)
	c.live = &liveness{nodes, cut}
	return &c
}

func (g *Graph) alive(n Node) bool {
	return g.live == nil || g.live.nodes[n]
}

// aliveEdge: control can pass from the i-th predecessor into the block.
func (g *Graph) aliveEdge(f *Frame, b *ssa.BasicBlock, i int) bool {
	if g.live == nil {
		return true
	}
	p := b.Preds[i]
	last := Node{F: f, I: p.Instrs[len(p.Instrs)-1]}
	if !g.live.nodes[last] {
		return false
	}
	for _, e := range g.Succ(last) {
		if e.To.I.Block() == b && !g.live.cut(last, e) {
			return true
		}
	}
	return false
}

type memStore struct {
	Path string
	Val  VV
	Node Node
	Map  bool
	Chan bool
	Key  VV
}

type okey struct {
	v    VV
	path string
}

// Origin is where a value comes from: the value V of frame F, projected by Path.
// Path elements: ".f" field, "*" load through pointer, "#i" tuple component,
// "[]" element, "{}" map value.
type Origin struct {
	F    *Frame
	V    ssa.Value
	Path string
}

func (o Origin) String() string {
	n := ""
	if o.V != nil {
		n = o.V.Name()
		switch x := o.V.(type) {
		case *ssa.Const:
			n = x.String()
		case *ssa.Global:
			n = x.RelString(nil)
		case *ssa.Function:
			n = fnName(x)
		case *ssa.Call:
			n = "call " + calleePath(&x.Call)
			if n == "call " {
				n = "dyncall " + x.Name()
			}
		case *ssa.MakeClosure:
			n = "closure " + fnName(x.Fn.(*ssa.Function))
		}
	}
	return n + o.Path
}

func NewGraph(w *World, root *ssa.Function, inline func(*ssa.Function) bool) *Graph {
	g := &Graph{W: w, kids: map[siteKey][]*Frame{}, inlined: map[siteKey]bool{}, Inline: inline, MaxDepth: 14,
		vid: map[VV]int{}, instrIdx: map[ssa.Instruction]int{}}
	g.Root = &Frame{ID: 0, Fn: root}
	g.Root.Thread = g.Root
	g.addFrame(g.Root)
	for round := 0; round < 12; round++ {
		g.resetMemo()
		before := len(g.Frames)
		nIn := len(g.inlined)
		for i := 0; i < len(g.Frames); i++ {
			g.expand(g.Frames[i])
		}
		if len(g.Frames) == before && len(g.inlined) == nIn {
			break
		}
		if len(g.Frames) > 4000 {
			break
		}
	}
	g.prune()
	g.resetMemo()
	return g
}

// prune removes the callback frames attached to a call before its callee was resolved.
func (g *Graph) prune() {
	dead := map[*Frame]bool{}
	for key := range g.inlined {
		var keep []*Frame
		for _, k := range g.kids[key] {
			if k.Kind == kCall || k.Kind == kThread && !isSpawnHelper(key) {
				keep = append(keep, k)
			} else {
				dead[k] = true
			}
		}
		g.kids[key] = keep
	}
	if len(dead) == 0 {
		return
	}
	isDead := func(f *Frame) bool {
		for ; f != nil; f = f.Parent {
			if dead[f] {
				return true
			}
		}
		return false
	}
	var live []*Frame
	for _, f := range g.Frames {
		if !isDead(f) {
			live = append(live, f)
		}
	}
	g.Frames = live
}

func isSpawnHelper(k siteKey) bool {
	_, isGo := k.I.(*ssa.Go)
	return !isGo
}

func (g *Graph) resetMemo() {
	g.omemo = map[okey][]Origin{}
	g.stores = nil
	g.storesOK = false
}

func (g *Graph) addFrame(f *Frame) {
	f.ID = len(g.Frames)
	g.Frames = append(g.Frames, f)
	for _, b := range f.Fn.Blocks {
		for i, in := range b.Instrs {
			g.instrIdx[in] = i
		}
	}
}

func onStack(f *Frame, fn *ssa.Function) bool {
	for ; f != nil; f = f.Parent {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// spawner classifies external calls that run a function value in another goroutine.
func spawnKind(c *ssa.CallCommon) (frameKind, bool) {
	switch calleePath(c) {
	case "sync.WaitGroup.Go":
		return kThread, true
	case tsgoPath + "/internal/core.WorkGroup.Queue":
		return kThread, true
	case tsgoPath + "/internal/compiler.Program.ForEachCheckerParallel":
		return kParallel, true
	}
	if c.IsInvoke() && c.Method.Name() == "Queue" && isNamed(c.Value.Type(), tsgoPath+"/internal/core", "WorkGroup") {
		return kThread, true
	}
	return kCallback, false
}

func (g *Graph) expand(f *Frame) {
	for _, b := range f.Fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				g.expandSite(f, x, nil, &x.Call)
			case *ssa.Go:
				g.expandSite(f, x, nil, &x.Call)
			case *ssa.RunDefers:
				for _, d := range defersOf(f.Fn) {
					g.expandSite(f, d, x, &d.Call)
				}
			}
		}
	}
}

func defersOf(f *ssa.Function) []*ssa.Defer {
	var ds []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	return ds
}

type target struct {
	fn   *ssa.Function
	bind []VV
}

func (g *Graph) expandSite(f *Frame, site ssa.CallInstruction, at ssa.Instruction, c *ssa.CallCommon) {
	key := siteKey{f, site, at}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	_, isGo := site.(*ssa.Go)
	ts, complete := g.targets(f, c)
	added := false
	all := complete && len(ts) > 0
	for _, t := range ts {
		if len(t.fn.Blocks) == 0 || !g.Inline(t.fn) || onStack(f, t.fn) || f.Depth >= g.MaxDepth {
			all = false
			continue
		}
		if g.hasKid(key, t.fn) {
			continue
		}
		nf := &Frame{Fn: t.fn, Parent: f, Site: site, At: at, Depth: f.Depth + 1, Bind: t.bind, Thread: f.Thread}
		if isGo {
			nf.Kind = kThread
			nf.Thread = nf
		}
		if c.IsInvoke() {
			// receiver: concrete value behind the interface
			nf.Args = append(nf.Args, VV{f, c.Value})
		}
		for _, a := range c.Args {
			nf.Args = append(nf.Args, VV{f, a})
		}
		g.addFrame(nf)
		g.kids[key] = append(g.kids[key], nf)
		added = true
	}
	if all {
		g.inlined[key] = true
		return
	}
	_ = added
	if len(ts) > 0 && complete && anyBody(ts, g.Inline) && !isGo {
		return // recursion or depth bound: opaque
	}
	// opaque callee: function values reachable from the arguments become callbacks
	kind, _ := spawnKind(c)
	cb := func(fts []target) {
		for _, t := range fts {
			if len(t.fn.Blocks) == 0 || !g.Inline(t.fn) || onStack(f, t.fn) || f.Depth >= g.MaxDepth || g.hasKid(key, t.fn) {
				continue
			}
			nf := &Frame{Fn: t.fn, Parent: f, Site: site, At: at, Depth: f.Depth + 1, Bind: t.bind, Kind: kind, Thread: f.Thread}
			if kind == kThread || kind == kParallel {
				nf.Thread = nf
			}
			nf.Args = make([]VV, len(t.fn.Params))
			g.addFrame(nf)
			g.kids[key] = append(g.kids[key], nf)
		}
	}
	for _, a := range c.Args {
		switch u := a.Type().Underlying().(type) {
		case *types.Signature:
			fts, _ := g.fnTargets(VV{f, a})
			cb(fts)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if _, ok := u.Field(i).Type().Underlying().(*types.Signature); ok {
					fts, _ := g.fnTargetsPath(VV{f, a}, "."+u.Field(i).Name())
					cb(fts)
				}
			}
		}
	}
}

func anyBody(ts []target, inl func(*ssa.Function) bool) bool {
	for _, t := range ts {
		if len(t.fn.Blocks) > 0 && inl(t.fn) {
			return true
		}
	}
	return false
}

func (g *Graph) hasKid(key siteKey, fn *ssa.Function) bool {
	for _, k := range g.kids[key] {
		if k.Fn == fn {
			return true
		}
	}
	return false
}

// targets resolves the callee of a call in a frame.
func (g *Graph) targets(f *Frame, c *ssa.CallCommon) ([]target, bool) {
	if c.IsInvoke() {
		var ts []target
		complete := true
		for _, o := range g.Origins(VV{f, c.Value}) {
			t := types.Type(nil)
			if o.V != nil && o.Path == "" {
				t = o.V.Type()
			}
			if t == nil || types.IsInterface(t) || typePkg(t) == "" || !isRepoPath(typePkg(t)) {
				complete = false
				continue
			}
			if m := g.W.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
				ts = append(ts, target{m, nil})
			} else {
				complete = false
			}
		}
		return ts, complete && len(ts) > 0
	}
	return g.fnTargets(VV{f, c.Value})
}

func (g *Graph) fnTargets(v VV) ([]target, bool) { return g.fnTargetsPath(v, "") }

func (g *Graph) fnTargetsPath(v VV, path string) ([]target, bool) {
	var ts []target
	complete := true
	for _, o := range g.OriginsPath(v, path) {
		switch x := o.V.(type) {
		case *ssa.Function:
			if o.Path == "" {
				ts = append(ts, target{x, nil})
				continue
			}
		case *ssa.MakeClosure:
			if o.Path == "" {
				fn := x.Fn.(*ssa.Function)
				var b []VV
				for _, bv := range x.Bindings {
					b = append(b, VV{o.F, bv})
				}
				ts = append(ts, target{fn, b})
				continue
			}
		case *ssa.Const:
			if x.Value == nil {
				continue // nil function: call panics, no edge
			}
		}
		complete = false
	}
	return ts, complete
}

// ---- origins ---------------------------------------------------------------

func (g *Graph) Origins(v VV) []Origin { return g.origins(v, "", map[okey]bool{}) }

func (g *Graph) OriginsPath(v VV, path string) []Origin { return g.origins(v, path, map[okey]bool{}) }

func dedupO(os []Origin) []Origin {
	seen := map[Origin]bool{}
	var r []Origin
	for _, o := range os {
		if !seen[o] {
			seen[o] = true
			r = append(r, o)
		}
	}
	return r
}

func (g *Graph) origins(v VV, path string, busy map[okey]bool) []Origin {
	k := okey{v, path}
	if r, ok := g.omemo[k]; ok {
		return r
	}
	if busy[k] || len(path) > 120 {
		return nil
	}
	busy[k] = true
	top := len(busy) == 1
	r := dedupO(g.origins1(v, path, busy))
	delete(busy, k)
	if top {
		g.omemo[k] = r
	}
	return r
}

func (g *Graph) origins1(v VV, path string, busy map[okey]bool) []Origin {
	self := []Origin{{v.F, v.V, path}}
	switch x := v.V.(type) {
	case *ssa.Parameter:
		if v.F.Args != nil {
			for i, p := range v.F.Fn.Params {
				if p == x && i < len(v.F.Args) && v.F.Args[i].V != nil {
					return g.origins(v.F.Args[i], path, busy)
				}
			}
		}
		return self
	case *ssa.FreeVar:
		for i, fv := range v.F.Fn.FreeVars {
			if fv == x && i < len(v.F.Bind) {
				return g.origins(v.F.Bind[i], path, busy)
			}
		}
		return self
	case *ssa.Phi:
		var r []Origin
		for i, e := range x.Edges {
			if g.aliveEdge(v.F, x.Block(), i) {
				r = append(r, g.origins(VV{v.F, e}, path, busy)...)
			}
		}
		return r
	case *ssa.MakeInterface:
		return g.origins(VV{v.F, x.X}, path, busy)
	case *ssa.ChangeType:
		return g.origins(VV{v.F, x.X}, path, busy)
	case *ssa.ChangeInterface:
		return g.origins(VV{v.F, x.X}, path, busy)
	case *ssa.Convert:
		return g.origins(VV{v.F, x.X}, path, busy)
	case *ssa.TypeAssert:
		if x.CommaOk {
			if strings.HasPrefix(path, "#0") {
				return g.origins(VV{v.F, x.X}, path[2:], busy)
			}
			return self
		}
		return g.origins(VV{v.F, x.X}, path, busy)
	case *ssa.Field:
		fv, base, _ := fieldOf(x)
		return g.origins(VV{v.F, base}, "."+fv.Name()+path, busy)
	case *ssa.Extract:
		return g.origins(VV{v.F, x.Tuple}, fmt.Sprintf("#%d", x.Index)+path, busy)
	case *ssa.Call:
		key := siteKey{v.F, x, nil}
		if g.inlined[key] {
			var r []Origin
			idx := 0
			p := path
			if strings.HasPrefix(p, "#") {
				fmt.Sscanf(p, "#%d", &idx)
				p = strings.TrimPrefix(p, fmt.Sprintf("#%d", idx))
			}
			for _, kf := range g.kids[key] {
				for _, b := range kf.Fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) && g.alive(Node{F: kf, I: ret}) {
						r = append(r, g.origins(VV{kf, ret.Results[idx]}, p, busy)...)
					}
				}
			}
			return r
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && strings.HasPrefix(path, "[]") {
			return g.loadLocs(g.sliceRoots(v, busy), path, busy)
		}
		return self
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return g.loadFrom(v.F, x.X, path, v, busy)
		}
		if x.Op == token.ARROW {
			p := path
			if x.CommaOk {
				if !strings.HasPrefix(p, "#0") {
					return self
				}
				p = p[2:]
			}
			return g.elemsOf(v.F, x.X, "<-", p, busy)
		}
		return self
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return g.origins(VV{v.F, x.X}, path, busy)
			}
		}
		if strings.HasPrefix(path, "[]") {
			if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
				return g.loadLocs(g.sliceRoots(v, busy), path, busy)
			}
		}
		return self
	case *ssa.Const:
		if x.Value == nil && path != "" && (path[0] == '*' || path[0] == '[') {
			return nil // dereference of nil: no value
		}
		return self
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		if strings.HasPrefix(path, "*") {
			return g.loadFrom(v.F, v.V, path[1:], v, busy)
		}
		return self
	case *ssa.MakeSlice:
		if strings.HasPrefix(path, "[]") {
			return g.loadLocs(g.sliceRoots(v, busy), path, busy)
		}
		return self
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return self
		}
		p := path
		if x.CommaOk {
			if !strings.HasPrefix(p, "#0") {
				return self
			}
			p = p[2:]
		}
		return g.elemsOf(v.F, x.X, "{}", p, busy)
	case *ssa.Next:
		rg, ok := x.Iter.(*ssa.Range)
		if !ok || x.IsString {
			return self
		}
		if strings.HasPrefix(path, "#2") {
			return g.elemsOf(v.F, rg.X, "{}", path[2:], busy)
		}
		if strings.HasPrefix(path, "#1") {
			return g.elemsOf(v.F, rg.X, "{k}", path[2:], busy)
		}
		return self
	}
	return self
}

// elemsOf resolves the elements of a map ("{}" values, "{k}" keys) or channel ("<-").
func (g *Graph) elemsOf(f *Frame, x ssa.Value, sep, path string, busy map[okey]bool) []Origin {
	g.buildStores()
	var r []Origin
	for _, o := range g.origins(VV{f, x}, "", busy) {
		if c, ok := o.V.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		l := Loc{VV{o.F, o.V}, o.Path}
		got := false
		known := false
		switch l.Root.V.(type) {
		case *ssa.MakeMap, *ssa.MakeChan:
			known = l.Path == ""
		}
		for _, s := range g.stores[rootKey(g, l)] {
			if sep == "<-" {
				if !s.Chan || s.Path != l.Path+"<-" {
					continue
				}
				got = true
				r = append(r, g.origins(s.Val, path, busy)...)
				continue
			}
			if !s.Map || s.Path != l.Path+"{}" {
				continue
			}
			got = true
			if sep == "{k}" {
				r = append(r, g.origins(s.Key, path, busy)...)
			} else {
				r = append(r, g.origins(s.Val, path, busy)...)
			}
		}
		if !got || !known {
			r = append(r, Origin{l.Root.F, l.Root.V, l.Path + sep + path})
		}
	}
	return r
}

// Loc is an abstract memory location.
type Loc struct {
	Root VV
	Path string
}

// addr resolves a pointer value to locations.
func (g *Graph) addr(v VV, busy map[okey]bool) []Loc {
	switch x := v.V.(type) {
	case *ssa.FieldAddr:
		fv, base, _ := fieldOf(x)
		var r []Loc
		for _, l := range g.addr(VV{v.F, base}, busy) {
			r = append(r, Loc{l.Root, l.Path + "." + fv.Name()})
		}
		return r
	case *ssa.IndexAddr:
		var r []Loc
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			for _, s := range g.sliceRoots(VV{v.F, x.X}, busy) {
				r = append(r, Loc{s.Root, s.Path + "[]"})
			}
			return r
		}
		for _, l := range g.addr(VV{v.F, x.X}, busy) {
			r = append(r, Loc{l.Root, l.Path + "[]"})
		}
		return r
	}
	var r []Loc
	for _, o := range g.origins(v, "", busy) {
		switch y := o.V.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if o.Path == "" && (o.V != v.V || o.F != v.F) {
				r = append(r, g.addr(VV{o.F, o.V}, busy)...)
				continue
			}
		case *ssa.Const:
			_ = y
			continue
		}
		r = append(r, Loc{VV{o.F, o.V}, o.Path})
	}
	return r
}

// sliceRoots gives the backing stores of a slice value.
func (g *Graph) sliceRoots(v VV, busy map[okey]bool) []Loc {
	var r []Loc
	for _, o := range g.origins(v, "", busy) {
		switch x := o.V.(type) {
		case *ssa.Const:
			continue
		case *ssa.Slice:
			if o.Path == "" {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					k := okey{VV{o.F, x.X}, "<slice>"}
					if busy[k] {
						continue
					}
					busy[k] = true
					r = append(r, g.sliceRoots(VV{o.F, x.X}, busy)...)
					delete(busy, k)
				} else {
					r = append(r, g.addr(VV{o.F, x.X}, busy)...)
				}
				continue
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && o.Path == "" {
				k := okey{VV{o.F, x}, "<append>"}
				if busy[k] {
					continue
				}
				busy[k] = true
				r = append(r, g.sliceRoots(VV{o.F, x.Call.Args[0]}, busy)...)
				if len(x.Call.Args) > 1 {
					r = append(r, g.sliceRoots(VV{o.F, x.Call.Args[1]}, busy)...)
				}
				delete(busy, k)
				continue
			}
		}
		r = append(r, Loc{VV{o.F, o.V}, o.Path})
	}
	return r
}

func (g *Graph) rid(v VV) string {
	id, ok := g.vid[v]
	if !ok {
		id = len(g.vid) + 1
		g.vid[v] = id
	}
	return fmt.Sprint(id)
}

func rootKey(g *Graph, l Loc) string {
	if _, ok := l.Root.V.(*ssa.Global); ok {
		return g.rid(VV{nil, l.Root.V})
	}
	return g.rid(l.Root)
}

func (g *Graph) buildStores() {
	if g.storesOK {
		return
	}
	g.storesOK = true
	g.stores = map[string][]memStore{}
	type pend struct {
		f  *Frame
		in ssa.Instruction
	}
	add := func(locs []Loc, ms memStore, suffix string) {
		for _, l := range locs {
			m := ms
			m.Path = l.Path + suffix
			k := rootKey(g, l)
			g.stores[k] = append(g.stores[k], m)
		}
	}
	// Two passes: the first sees no stores (addresses through registers only),
	// the second uses the stores of the first for addresses loaded from memory.
	for pass := 0; pass < 3; pass++ {
		next := map[string][]memStore{}
		cur := g.stores
		_ = cur
		save := g.stores
		addTo := func(locs []Loc, ms memStore, suffix string) {
			for _, l := range locs {
				m := ms
				m.Path = l.Path + suffix
				k := rootKey(g, l)
				next[k] = append(next[k], m)
			}
		}
		for _, f := range g.Frames {
			for _, b := range f.Fn.Blocks {
				for _, in := range b.Instrs {
					if !g.alive(Node{F: f, I: in}) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						g.stores = save
						addTo(g.addr(VV{f, x.Addr}, map[okey]bool{}), memStore{Val: VV{f, x.Val}, Node: Node{F: f, I: x}}, "")
					case *ssa.MapUpdate:
						addTo(g.addrMap(VV{f, x.Map}), memStore{Val: VV{f, x.Value}, Node: Node{F: f, I: x}, Map: true, Key: VV{f, x.Key}}, "{}")
					case *ssa.Send:
						addTo(g.addrMap(VV{f, x.Chan}), memStore{Val: VV{f, x.X}, Node: Node{F: f, I: x}, Chan: true}, "<-")
					case *ssa.Select:
						for _, st := range x.States {
							if st.Dir == types.SendOnly {
								addTo(g.addrMap(VV{f, st.Chan}), memStore{Val: VV{f, st.Send}, Node: Node{F: f, I: x}, Chan: true}, "<-")
							}
						}
					}
				}
			}
		}
		g.stores = next
		g.omemo = map[okey][]Origin{}
	}
	_ = add
}

func (g *Graph) addrMap(v VV) []Loc {
	var r []Loc
	for _, o := range g.origins(v, "", map[okey]bool{}) {
		if _, ok := o.V.(*ssa.Const); ok {
			continue
		}
		r = append(r, Loc{VV{o.F, o.V}, o.Path})
	}
	return r
}

// loadFrom resolves the load *ptr projected by path.
func (g *Graph) loadFrom(f *Frame, ptr ssa.Value, path string, self VV, busy map[okey]bool) []Origin {
	return g.loadLocs(g.addr(VV{f, ptr}, busy), path, busy)
}

func (g *Graph) loadLocs(locs []Loc, path string, busy map[okey]bool) []Origin {
	g.buildStores()
	var r []Origin
	for _, l := range locs {
		got := false
		known := false // location whose every store is in the graph
		switch l.Root.V.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			known = !strings.Contains(l.Path, "*")
		}
		want := l.Path + path
		for _, s := range g.stores[rootKey(g, l)] {
			if s.Map || s.Chan {
				continue
			}
			if strings.HasPrefix(want, s.Path) && (len(want) == len(s.Path) || isPathBreak(want[len(s.Path):])) {
				got = true
				r = append(r, g.origins(s.Val, want[len(s.Path):], busy)...)
			} else if strings.HasPrefix(s.Path, want) && isPathBreak(s.Path[len(want):]) && s.Path[len(want)] != '*' {
				// part of the wanted aggregate is stored separately
				got = true
				r = append(r, Origin{l.Root.F, l.Root.V, "*" + want})
			}
		}
		if ms, ok := l.Root.V.(*ssa.MakeSlice); ok && !got {
			if n, ok := constInt(ms.Len); ok && n == 0 && strings.HasPrefix(want, "[]") {
				continue // no element exists at creation
			}
		}
		if !got || !known {
			r = append(r, Origin{l.Root.F, l.Root.V, "*" + want})
		}
	}
	return r
}

func isPathBreak(s string) bool {
	return s == "" || s[0] == '.' || s[0] == '[' || s[0] == '*' || s[0] == '{' || s[0] == '<'
}

// ---- control flow ----------------------------------------------------------

func (g *Graph) Entry(f *Frame) (Node, bool) {
	if len(f.Fn.Blocks) == 0 || len(f.Fn.Blocks[0].Instrs) == 0 {
		return Node{}, false
	}
	return Node{F: f, I: f.Fn.Blocks[0].Instrs[0]}, true
}

func (g *Graph) next(n Node) (Node, bool) {
	b := n.I.Block()
	i := g.instrIdx[n.I]
	if i+1 < len(b.Instrs) {
		return Node{F: n.F, I: b.Instrs[i+1]}, true
	}
	return Node{}, false
}

// Edge is one control-flow step; Branch is 1 for the true and 0 for the false
// successor of an If, -1 otherwise.
type Edge struct {
	To     Node
	Branch int
}

func (g *Graph) afterSite(f *Frame) []Node {
	// continuation of a synchronous frame after it returns
	if f.Parent == nil {
		return nil
	}
	if f.At != nil {
		return g.deferChain(f.Parent, f.At.(*ssa.RunDefers), f.Site.(*ssa.Defer))
	}
	if n, ok := g.next(Node{F: f.Parent, I: f.Site}); ok {
		return []Node{n}
	}
	return nil
}

// deferChain returns the nodes that follow deferred call d (nil: the first) at a RunDefers.
func (g *Graph) deferChain(f *Frame, rd *ssa.RunDefers, d *ssa.Defer) []Node {
	ds := defersOf(f.Fn)
	var res []Node
	i := len(ds) - 1
	if d != nil {
		for i = len(ds) - 1; i >= 0; i-- {
			if ds[i] == d {
				break
			}
		}
		i--
	}
	for ; i >= 0; i-- {
		res = append(res, Node{F: f, I: ds[i], At: rd})
		if ds[i].Block().Dominates(rd.Block()) {
			return res
		}
	}
	if n, ok := g.next(Node{F: f, I: rd}); ok {
		res = append(res, n)
	}
	return res
}

func (g *Graph) Succ(n Node) []Edge {
	var es []Edge
	add := func(m Node) { es = append(es, Edge{m, -1}) }
	addNext := func() {
		if n.At != nil {
			for _, m := range g.deferChain(n.F, n.At.(*ssa.RunDefers), n.I.(*ssa.Defer)) {
				add(m)
			}
			return
		}
		if m, ok := g.next(n); ok {
			add(m)
		}
	}
	if ci, ok := n.I.(ssa.CallInstruction); ok {
		_, isDefer := n.I.(*ssa.Defer)
		if isDefer && n.At == nil {
			addNext()
			return es
		}
		key := siteKey{n.F, ci, n.At}
		opaque := !g.inlined[key]
		for _, k := range g.kids[key] {
			if e, ok := g.Entry(k); ok {
				add(e)
			}
			if k.Kind != kCall {
				opaque = true
			}
		}
		if opaque {
			addNext()
		}
		return es
	}
	switch x := n.I.(type) {
	case *ssa.If:
		for i, s := range x.Block().Succs {
			if len(s.Instrs) > 0 {
				es = append(es, Edge{Node{F: n.F, I: s.Instrs[0]}, 1 - i})
			}
		}
	case *ssa.Jump:
		for _, s := range x.Block().Succs {
			if len(s.Instrs) > 0 {
				add(Node{F: n.F, I: s.Instrs[0]})
			}
		}
	case *ssa.Return:
		if n.F.Kind == kThread {
			return nil
		}
		for _, m := range g.afterSite(n.F) {
			add(m)
		}
		if n.F.Kind == kCallback || n.F.Kind == kParallel {
			if e, ok := g.Entry(n.F); ok {
				add(e)
			}
		}
	case *ssa.Panic:
	case *ssa.RunDefers:
		for _, m := range g.deferChain(n.F, x, nil) {
			add(m)
		}
	default:
		addNext()
	}
	return es
}

type Cut func(from Node, e Edge) bool // true: edge removed

// Reach computes the nodes reachable from the given nodes (inclusive) without
// expanding past nodes for which stop holds, and without cut edges.
func (g *Graph) Reach(from []Node, stop func(Node) bool, cut Cut) map[Node]bool {
	seen := map[Node]bool{}
	var st []Node
	for _, n := range from {
		if !seen[n] {
			seen[n] = true
			st = append(st, n)
		}
	}
	first := map[Node]bool{}
	for _, n := range from {
		first[n] = true
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if stop != nil && stop(n) {
			continue
		}
		for _, e := range g.Succ(n) {
			if cut != nil && cut(n, e) {
				continue
			}
			if !seen[e.To] {
				seen[e.To] = true
				st = append(st, e.To)
			}
		}
	}
	return seen
}

// After returns the direct successors of n.
func (g *Graph) After(n Node) []Node {
	var r []Node
	for _, e := range g.Succ(n) {
		r = append(r, e.To)
	}
	return r
}

// Nodes enumerates every node reachable from the root.
func (g *Graph) Nodes() []Node {
	e, _ := g.Entry(g.Root)
	m := g.Reach([]Node{e}, nil, nil)
	var r []Node
	for n := range m {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return g.less(r[i], r[j]) })
	return r
}

func (g *Graph) less(a, b Node) bool {
	if a.F.ID != b.F.ID {
		return a.F.ID < b.F.ID
	}
	if a.I.Block() != b.I.Block() {
		return a.I.Block().Index < b.I.Block().Index
	}
	if a.I != b.I {
		return g.instrIdx[a.I] < g.instrIdx[b.I]
	}
	return a.At == nil && b.At != nil
}

func callOf(n Node) *ssa.CallCommon {
	if c, ok := n.I.(ssa.CallInstruction); ok {
		if _, isDefer := n.I.(*ssa.Defer); isDefer && n.At == nil {
			return nil
		}
		return c.Common()
	}
	return nil
}

// Opaque reports whether the call at n is not inlined.
func (g *Graph) Opaque(n Node) bool {
	ci, ok := n.I.(ssa.CallInstruction)
	if !ok {
		return false
	}
	return !g.inlined[siteKey{n.F, ci, n.At}]
}

// GuardCond is a branch condition known to hold at a node.
type GuardCond struct {
	If   *ssa.If
	F    *Frame
	True bool
}

// Guards returns the branch decisions through which every path from the root to n passes.
func (g *Graph) Guards(n Node, nodes []Node) []GuardCond {
	e, _ := g.Entry(g.Root)
	var r []GuardCond
	for _, m := range nodes {
		x, ok := m.I.(*ssa.If)
		if !ok {
			continue
		}
		for _, br := range []int{0, 1} {
			seen := g.Reach([]Node{e}, nil, func(from Node, ed Edge) bool { return from == m && ed.Branch == br })
			if !seen[n] {
				r = append(r, GuardCond{x, m.F, br == 1})
			}
		}
	}
	return r
}

func (g *Graph) nodePos(n Node) string {
	p := n.I.Pos()
	if !p.IsValid() {
		for _, in := range n.I.Block().Instrs {
			if in.Pos().IsValid() {
				p = in.Pos()
				break
			}
		}
	}
	// blocks without positions: the nearest following block that has one
	seen := map[*ssa.BasicBlock]bool{n.I.Block(): true}
	for q := []*ssa.BasicBlock{n.I.Block()}; len(q) > 0 && !p.IsValid(); q = q[1:] {
		for _, s := range q[0].Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			q = append(q, s)
			for _, in := range s.Instrs {
				if in.Pos().IsValid() && !p.IsValid() {
					p = in.Pos()
				}
			}
		}
	}
	if !p.IsValid() {
		p = n.F.Fn.Pos()
	}
	return g.W.pos(p)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every requested file is linted once, with exactly the rules configured for it",
		"Supergraph of headless mode. The requested file names are followed from the decoded request to the lint workers as a chain of complete transfers: a loop over the collection that leaves early only on a failure and that, on every path of its body, puts the element into the next collection (append, map entry, channel send) exactly once; membership tests against the program's files must drain the request set, and what remains must stop the run. The rules run for a file are traced back to the request entry of that very file: lookup keys, rule names and options have to belong to the same element. Listeners: every one registered is kept and every one registered for a kind is called.",
		checkC06)
}

// fcoll is a collection holding file names or files.
type fcoll struct {
	roots map[string]bool
	kind  string // "val": elements/values/items, "key": map keys, "nested": map of slices
	path  string // where in the element
	desc  string
}

func (h *Headless) collRoots(v VV) map[string]bool {
	m := map[string]bool{}
	switch v.V.Type().Underlying().(type) {
	case *types.Slice, *types.Pointer:
		for _, l := range h.G.sliceRoots(v, map[okey]bool{}) {
			m[rootKey(h.G, l)+l.Path] = true
		}
	default:
		for _, o := range h.G.Origins(v) {
			if c, ok := o.V.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			l := Loc{VV{o.F, o.V}, o.Path}
			m[rootKey(h.G, l)+l.Path] = true
		}
	}
	return m
}

// derived: v is the element, or computed from it by calls that take it as an argument.
func (h *Headless) derived(v VV, el Anchor, d int) bool {
	if d > 4 || v.V == nil {
		return false
	}
	if _, ok := v.V.(*ssa.Const); ok {
		return false
	}
	a := h.anchor(v)
	if h.sameAnchor(a, el) {
		return true
	}
	if a.Kind == "call" && (a.Path == "" || a.Path == "#0") {
		c := a.V.(*ssa.Call).Call
		if c.IsInvoke() && h.derived(VV{a.F, c.Value}, el, d+1) {
			return true
		}
		for _, x := range c.Args {
			if h.derived(VV{a.F, x}, el, d+1) {
				return true
			}
		}
	}
	if a.Kind == "val" && a.Path == "" {
		switch x := a.V.(type) {
		case *ssa.Convert:
			return h.derived(VV{a.F, x.X}, el, d+1)
		}
	}
	return false
}

// derivedPath finds the field of a struct value that is derived from el ("" for the value itself).
func (h *Headless) derivedPath(v VV, el Anchor) (string, bool) {
	if h.derived(v, el, 0) {
		return "", true
	}
	if st, ok := v.V.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			a := h.anchorP(v, "."+st.Field(i).Name(), 0)
			if h.sameAnchor(a, el) {
				return "." + st.Field(i).Name(), true
			}
		}
	}
	return "", false
}

// appendElems: the values appended by a call of append, when given one by one.
func (h *Headless) appendElems(n Node) (base VV, elems []VV, ok bool) {
	call, isCall := n.I.(*ssa.Call)
	if !isCall {
		return
	}
	b, isB := call.Call.Value.(*ssa.Builtin)
	if !isB || b.Name() != "append" || len(call.Call.Args) < 2 {
		return
	}
	base = VV{n.F, call.Call.Args[0]}
	sl, isS := call.Call.Args[1].(*ssa.Slice)
	if !isS {
		return base, nil, true
	}
	al, isA := sl.X.(*ssa.Alloc)
	if !isA {
		return base, nil, true
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
				elems = append(elems, VV{n.F, s.Val})
			}
		}
	}
	return base, elems, true
}

// retained: the result of append replaces the slice appended to.
func (h *Headless) retained(n Node) bool {
	call := n.I.(*ssa.Call)
	base := call.Call.Args[0]
	seen := map[ssa.Value]bool{}
	var reach func(v ssa.Value) bool // base derives from v
	reach = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if v == call {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if reach(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return reach(x.Call.Args[0])
			}
		case *ssa.Slice:
			return reach(x.X)
		}
		return false
	}
	if reach(base) {
		return true
	}
	baseLoc := map[string]bool{}
	if ld, ok := base.(*ssa.UnOp); ok && ld.Op == token.MUL {
		baseLoc = h.locsOf(VV{n.F, ld.X})
	}
	var stored func(v ssa.Value, d int) bool
	stored = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val == v {
					if overlap(baseLoc, h.locsOf(VV{n.F, x.Addr})) {
						return true
					}
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					return true // checked by the map sink
				}
			case *ssa.Return:
				return true
			case *ssa.Phi:
				if stored(x, d+1) {
					return true
				}
			}
		}
		return false
	}
	return stored(call, 0)
}

type sink struct {
	n Node
	c fcoll
}

func rootsKey(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// sinks: the nodes of the loop body that put the element into another collection.
func (h *Headless) sinks(f *Frame, it *Iter, el Anchor, cut Cut) []sink {
	hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
	be := Node{F: f, I: it.BodyEntry().Instrs[0]}
	region := h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, cut)
	var res []sink
	var ns []Node
	for n := range region {
		if n.F == f && !it.Loop.Body[n.I.Block()] {
			continue
		}
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return h.G.less(ns[i], ns[j]) })
	for _, n := range ns {
		switch x := n.I.(type) {
		case *ssa.MapUpdate:
			roots := h.collRoots(VV{n.F, x.Map})
			if h.derived(VV{n.F, x.Key}, el, 0) {
				res = append(res, sink{n, fcoll{roots: roots, kind: "key", desc: "map keys"}})
			}
			if p, ok := h.derivedPath(VV{n.F, x.Value}, el); ok {
				res = append(res, sink{n, fcoll{roots: roots, kind: "val", path: p, desc: "map values"}})
			} else if c, ok := x.Value.(*ssa.Call); ok {
				if base, es, ok := h.appendElems(Node{F: n.F, I: c}); ok {
					for _, e := range es {
						if _, ok := h.derivedPath(e, el); ok && h.keepsEntry(n, x, base) {
							res = append(res, sink{n, fcoll{roots: roots, kind: "nested", desc: "slices of a map"}})
						}
					}
				}
			}
		case *ssa.Send:
			if p, ok := h.derivedPath(VV{n.F, x.X}, el); ok {
				res = append(res, sink{n, fcoll{roots: h.collRoots(VV{n.F, x.Chan}), kind: "val", path: p, desc: "channel"}})
			}
		case *ssa.Call:
			_, es, ok := h.appendElems(n)
			if !ok || !h.retained(n) {
				continue
			}
			toMap := false
			for _, u := range *x.Referrers() {
				if mu, ok := u.(*ssa.MapUpdate); ok && mu.Value == x {
					toMap = true
				}
			}
			if toMap {
				continue
			}
			for _, e := range es {
				if p, ok := h.derivedPath(e, el); ok {
					res = append(res, sink{n, fcoll{roots: h.collRoots(VV{n.F, x}), kind: "val", path: p, desc: "slice"}})
				}
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, isSl := ia.X.Type().Underlying().(*types.Slice); !isSl {
				continue // the temporary array of a variadic call
			}
			if ia.Index != it.Index && !sameVal(ia.Index, it.Index) {
				continue
			}
			if p, ok := h.derivedPath(VV{n.F, x.Val}, el); ok {
				res = append(res, sink{n, fcoll{roots: h.collRoots(VV{n.F, ia.X}), kind: "val", path: p, desc: "slice"}})
			}
		}
	}
	return res
}

// keepsEntry: m[k] = append(base, ...) where base is the present m[k].
func (h *Headless) keepsEntry(n Node, mu *ssa.MapUpdate, base VV) bool {
	return h.isEntry(n, mu, base, 0)
}

func (h *Headless) isEntry(n Node, mu *ssa.MapUpdate, base VV, d int) bool {
	if d > 4 {
		return false
	}
	v := base.V
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return overlap(h.collRoots(VV{base.F, x.X}), h.collRoots(VV{n.F, mu.Map})) && h.sameAnchor(h.anchor(VV{base.F, x.Index}), h.anchor(VV{n.F, mu.Key}))
	case *ssa.Phi:
		// a fresh slice is only used when the entry is missing
		lk := (*ssa.Lookup)(nil)
		for _, e := range x.Edges {
			if h.isEntry(n, mu, VV{base.F, e}, d+1) {
				if ex, ok := e.(*ssa.Extract); ok {
					lk, _ = ex.Tuple.(*ssa.Lookup)
				} else {
					lk, _ = e.(*ssa.Lookup)
				}
			}
		}
		if lk == nil {
			return false
		}
		for i, e := range x.Edges {
			if h.isEntry(n, mu, VV{base.F, e}, d+1) {
				continue
			}
			if ms, ok := e.(*ssa.MakeSlice); ok {
				if k, ok := constInt(ms.Len); !ok || k != 0 {
					return false
				}
			} else if !isNilConst(e) {
				return false
			}
			if !h.onlyMissing(x.Block().Preds[i], lk) {
				return false
			}
		}
		return true
	}
	return false
}

// onlyMissing: block b is only reached when the lookup found nothing.
func (h *Headless) onlyMissing(b *ssa.BasicBlock, lk *ssa.Lookup) bool {
	for _, blk := range lk.Parent().Blocks {
		ifi, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		found, ok := presence(ifi.Cond, lk)
		if !ok {
			continue
		}
		miss := blk.Succs[1]
		if !found {
			miss = blk.Succs[0]
		}
		if miss == b && len(miss.Preds) == 1 || miss.Dominates(b) && len(miss.Preds) == 1 {
			return true
		}
	}
	return false
}

// presence: the condition tells whether the lookup found an entry; found is the polarity.
func presence(c ssa.Value, lk *ssa.Lookup) (found, ok bool) {
	switch x := c.(type) {
	case *ssa.Extract:
		if x.Tuple == lk && x.Index == 1 {
			return true, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			f, ok := presence(x.X, lk)
			return !f, ok
		}
	case *ssa.BinOp:
		v, k := x.X, x.Y
		if isConst(v) {
			v, k = k, v
		}
		of := func(v ssa.Value) bool {
			if v == ssa.Value(lk) {
				return true
			}
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == lk && ex.Index == 0
		}
		if of(v) && isNilConst(k) {
			return x.Op == token.NEQ, x.Op == token.NEQ || x.Op == token.EQL
		}
		if l := lenArg(v); l != nil && of(l) {
			if n, ok := constInt(k); ok && n == 0 {
				switch x.Op {
				case token.EQL:
					return false, true
				case token.NEQ, token.GTR:
					return true, true
				}
			}
		}
	}
	return false, false
}

func (h *Headless) elemAnchor(f *Frame, it *Iter, c fcoll) (Anchor, bool) {
	switch it.Kind {
	case "slice":
		if c.kind == "val" {
			return Anchor{Kind: "elem", F: f, V: it.Index, Coll: it.Coll, Path: c.path}, true
		}
	case "map":
		if c.kind == "key" {
			return Anchor{Kind: "item", F: f, V: it.Source, Path: "#1"}, true
		}
		if c.kind == "val" {
			return Anchor{Kind: "item", F: f, V: it.Source, Path: "#2" + c.path}, true
		}
	case "chan":
		if c.kind == "val" {
			return Anchor{Kind: "recv", F: f, V: it.Source, Path: c.path}, true
		}
	}
	return Anchor{}, false
}

// failureEdges: branches taken on an error or when there is no program.
func (h *Headless) failureEdges(from Node, e Edge) bool {
	x, ok := from.I.(*ssa.If)
	if !ok {
		return false
	}
	c, neg := x.Cond, false
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, neg = u.X, !neg
			continue
		}
		break
	}
	b, ok := c.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return false
	}
	v := b.X
	if isNilConst(v) {
		v = b.Y
	} else if !isNilConst(b.Y) {
		return false
	}
	isNilBranch := (b.Op == token.EQL) == (e.Branch == 1)
	if neg {
		isNilBranch = !isNilBranch
	}
	if isErrorT(v.Type()) {
		return !isNilBranch
	}
	if isNamed(deref(v.Type()), tsgoPath+"/internal/compiler", "Program") {
		return isNilBranch
	}
	return false
}

type fileFlow struct {
	h       *Headless
	r       *R
	term    map[string]bool // roots of the terminal channels
	memo    map[string]string
	busy    map[string]bool
	hops    []string
	sinksOn map[Node]fcoll // chain sinks
	loops   map[string]bool
	lists   map[string]bool // roots of every collection of the chain
}

func (ff *fileFlow) track(m map[string]bool) {
	if ff.lists == nil {
		ff.lists = map[string]bool{}
	}
	for k := range m {
		ff.lists[k] = true
	}
}

// partial: a slice expression that need not cover the whole list.
func partial(s *ssa.Slice) bool {
	if _, ok := s.X.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	if s.Low != nil {
		if k, ok := constInt(s.Low); !ok || k != 0 {
			return true
		}
	}
	if s.High != nil {
		if l := lenArg(s.High); l == nil || !sameVal(l, s.X) {
			return true
		}
	}
	return false
}

// wholeLists: no collection of the chain is cut.
func (ff *fileFlow) wholeLists() {
	h := ff.h
	n := 0
	for _, nd := range h.Nodes {
		s, ok := nd.I.(*ssa.Slice)
		if !ok {
			continue
		}
		if _, ok := s.X.Type().Underlying().(*types.Slice); !ok || !overlap(ff.lists, h.collRoots(VV{nd.F, s.X})) {
			continue
		}
		n++
		ff.r.Ob("file-chain", "slice in "+h.where(nd), !partial(s), h.G.nodePos(nd), "only a part of a list of files is passed on: whether the parts add up to the whole is undecided")
	}
	ff.r.Info["lists of files"] = len(ff.lists)
}

func (ff *fileFlow) key(c fcoll) string { return c.kind + c.path + "|" + rootsKey(c.roots) }

// good: every element of the collection reaches the workers. "" or the reason why not.
func (ff *fileFlow) good(c fcoll) (why string) {
	ff.track(c.roots)
	if overlap(c.roots, ff.term) && c.kind == "val" && c.path == "" {
		return ""
	}
	k := ff.key(c)
	if s, ok := ff.memo[k]; ok {
		return s
	}
	if ff.busy[k] {
		return "cyclic"
	}
	ff.busy[k] = true
	defer delete(ff.busy, k)
	h := ff.h
	var whys []string
	best := "no loop takes the elements of this collection (" + c.desc + ")"
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if !h.set[Node{F: f, I: it.If}] || !overlap(c.roots, h.collRoots(VV{f, it.Coll})) {
				continue
			}
			if c.kind == "nested" {
				if it.Kind != "map" {
					continue
				}
				w := ff.nested(f, it, c)
				if w == "" {
					ff.memo[k] = ""
					return ""
				}
				whys = append(whys, w)
				continue
			}
			el, ok := h.elemAnchor(f, it, c)
			if !ok {
				continue
			}
			w := ff.transfer(f, it, el)
			if w == "" {
				ff.memo[k] = ""
				return ""
			}
			whys = append(whys, w)
		}
	}
	if c.kind == "key" {
		w := ff.drained(c)
		if w == "" {
			ff.memo[k] = ""
			return ""
		}
		whys = append(whys, w)
	}
	sort.Slice(whys, func(i, j int) bool { return len(whys[i]) > len(whys[j]) })
	if len(whys) > 0 {
		best = whys[0]
	}
	ff.memo[k] = best
	return best
}

func (ff *fileFlow) where(f *Frame, it *Iter) string {
	return ff.h.G.nodePos(Node{F: f, I: it.If})
}

// transfer: one loop moves every element on.
func (ff *fileFlow) transfer(f *Frame, it *Iter, el Anchor) string {
	h := ff.h
	ff.track(h.collRoots(VV{f, it.Coll}))
	ss := h.sinks(f, it, el, h.failureEdges)
	var good []sink
	why := "the elements are not passed on"
	for _, s := range ss {
		if w := ff.good(s.c); w == "" {
			good = append(good, s)
		} else if len(w) > len(why) {
			why = w
		}
	}
	if len(good) == 0 {
		return why
	}
	return ff.complete(f, it, good)
}

func (ff *fileFlow) complete(f *Frame, it *Iter, good []sink) string {
	h := ff.h
	at := map[Node]bool{}
	for _, s := range good {
		at[s.n] = true
	}
	if w := h.iterEvery(f, it, func(n Node) bool { return at[n] }, h.failureEdges); w != "" {
		return "loop at " + ff.where(f, it) + ": " + w
	}
	// at most once
	hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
	for _, s := range good {
		if s.c.kind == "key" {
			continue
		}
		seen := h.G.Reach(h.G.After(s.n), func(n Node) bool { return n == hd }, h.failureEdges)
		for _, t := range good {
			if t.c.kind != "key" && seen[t.n] {
				return "loop at " + ff.where(f, it) + ": an element can be passed on twice (" + h.G.nodePos(t.n) + ")"
			}
		}
	}
	for _, s := range good {
		ff.sinksOn[s.n] = s.c
	}
	id := ff.where(f, it)
	if !ff.loops[id] {
		ff.loops[id] = true
		ff.hops = append(ff.hops, id)
	}
	return ""
}

// nested: a loop over a map of slices with an inner loop over the slice.
func (ff *fileFlow) nested(f *Frame, outer *Iter, c fcoll) string {
	h := ff.h
	item := Anchor{Kind: "item", F: f, V: outer.Source, Path: "#2"}
	why := "the slices of the map are not looped over"
	for _, g := range h.G.Frames {
		for _, it := range itersIn(g.Fn) {
			if it.Kind != "slice" || !h.set[Node{F: g, I: it.If}] {
				continue
			}
			if !h.sameAnchor(h.anchor(VV{g, it.Coll}), item) {
				continue
			}
			el := Anchor{Kind: "elem", F: g, V: it.Index, Coll: it.Coll}
			w := ff.transfer(g, it, el)
			if w != "" {
				if len(w) > 8 {
					why = w
				}
				continue
			}
			hd := Node{F: g, I: it.If}
			if w := h.iterEvery(f, outer, func(n Node) bool { return n == hd }, h.failureEdges); w != "" {
				why = "loop at " + ff.where(f, outer) + ": " + w
				continue
			}
			return ""
		}
	}
	return why
}

// drained: the keys of the map are matched against the files of the program.
func (ff *fileFlow) drained(c fcoll) string {
	h := ff.h
	why := "the file names are not matched against a program"
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "slice" || !h.set[Node{F: f, I: it.If}] || !isNamed(deref(elemType(it.Coll.Type())), pAst, "SourceFile") {
				continue
			}
			el := Anchor{Kind: "elem", F: f, V: it.Index, Coll: it.Coll}
			hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
			be := Node{F: f, I: it.BodyEntry().Instrs[0]}
			region := h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, h.failureEdges)
			var dels []Node
			var lookups []*ssa.Lookup
			for n := range region {
				if x := callOf(n); x != nil && calleePath(x) == "builtin.delete" && overlap(c.roots, h.collRoots(VV{n.F, x.Args[0]})) && h.derived(VV{n.F, x.Args[1]}, el, 0) {
					dels = append(dels, n)
				}
				if lk, ok := n.I.(*ssa.Lookup); ok {
					if _, isMap := lk.X.Type().Underlying().(*types.Map); isMap && overlap(c.roots, h.collRoots(VV{n.F, lk.X})) && h.derived(VV{n.F, lk.Index}, el, 0) {
						lookups = append(lookups, lk)
					}
				}
			}
			if len(dels) == 0 {
				continue
			}
			if w := h.iterEvery(f, it, nil, h.failureEdges); w != "" {
				why = "loop at " + ff.where(f, it) + ": " + w
				continue
			}
			var next []sink
			w2 := ""
			for _, s := range h.sinks(f, it, el, h.failureEdges) {
				if w := ff.good(s.c); w == "" {
					next = append(next, s)
				} else {
					w2 = w
				}
			}
			if len(next) == 0 {
				why = w2 + " (files matched at " + ff.where(f, it) + ")"
				continue
			}
			at := map[Node]bool{}
			for _, s := range next {
				at[s.n] = true
			}
			bad := ""
			// a name is removed only together with taking the file, and the file is taken only for a requested name
			for _, d := range dels {
				after := h.G.Reach(h.G.After(d), func(n Node) bool { return at[n] || n == hd }, h.failureEdges)
				before := h.G.Reach([]Node{be}, func(n Node) bool { return at[n] || n == hd }, h.failureEdges)
				if after[hd] && before[d] {
					bad = "a requested name is removed at " + h.G.nodePos(d) + " without its file being taken"
				}
			}
			notFound := func(from Node, e Edge) bool {
				if h.failureEdges(from, e) {
					return true
				}
				x, ok := from.I.(*ssa.If)
				if !ok {
					return false
				}
				for _, lk := range lookups {
					if found, ok := presence(x.Cond, lk); ok && found == (e.Branch == 1) {
						return true // cut the branch on which the name was requested
					}
				}
				return false
			}
			seen := h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, notFound)
			for n := range at {
				if seen[n] {
					bad = "a file can be taken that was not requested (" + h.G.nodePos(n) + ")"
				}
				if again := h.G.Reach(h.G.After(n), func(n Node) bool { return n == hd }, h.failureEdges); again[n] {
					bad = "a file can be taken twice"
				}
				// a second program file of the same name must not be taken again: the name is removed
				d2 := h.G.Reach(h.G.After(n), func(x Node) bool { return isIn(dels, x) || x == hd }, h.failureEdges)
				d1 := h.G.Reach([]Node{be}, func(x Node) bool { return isIn(dels, x) || x == hd }, h.failureEdges)
				if d2[hd] && d1[n] {
					bad = "a file is taken without its name being removed (" + h.G.nodePos(n) + ")"
				}
			}
			if bad != "" {
				why = bad
				continue
			}
			// names left over stop the run
			empty := func(from Node, e Edge) bool {
				if h.failureEdges(from, e) {
					return true
				}
				x, ok := from.I.(*ssa.If)
				if !ok {
					return false
				}
				isEmpty, ok := h.emptyTest(from.F, x.Cond, c.roots)
				return ok && isEmpty == (e.Branch == 1)
			}
			exit := Node{F: f, I: it.Exit().Instrs[0]}
			seen = h.G.Reach([]Node{exit}, nil, empty)
			left := ""
			for _, s := range next {
				for _, g := range h.G.Frames {
					for _, jt := range itersIn(g.Fn) {
						if overlap(s.c.roots, h.collRoots(VV{g, jt.Coll})) && (g != f || jt.If != it.If) && seen[Node{F: g, I: jt.If}] {
							left = "linting goes on although requested files were not found in the program (" + ff.where(g, jt) + ")"
						}
					}
				}
			}
			if left != "" {
				why = left
				continue
			}
			for _, s := range next {
				ff.sinksOn[s.n] = s.c
			}
			id := ff.where(f, it)
			if !ff.loops[id] {
				ff.loops[id] = true
				ff.hops = append(ff.hops, id)
			}
			return ""
		}
	}
	return why
}

func isIn(ns []Node, n Node) bool {
	for _, x := range ns {
		if x == n {
			return true
		}
	}
	return false
}

// emptyTest: the condition tells whether the map is empty.
func (h *Headless) emptyTest(f *Frame, c ssa.Value, roots map[string]bool) (empty, ok bool) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e, ok := h.emptyTest(f, x.X, roots)
			return !e, ok
		}
	case *ssa.BinOp:
		v, k, op := x.X, x.Y, x.Op
		if isConst(v) {
			v, k = k, v
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		l := lenArg(v)
		n, isC := constInt(k)
		if l == nil || !isC || !overlap(roots, h.collRoots(VV{f, l})) {
			return false, false
		}
		switch {
		case n == 0 && op == token.EQL, n == 1 && op == token.LSS, n == 0 && op == token.LEQ:
			return true, true
		case n == 0 && op == token.NEQ, n == 0 && op == token.GTR, n == 1 && op == token.GEQ:
			return false, true
		}
	}
	return false, false
}

func checkC06(r *R) {
	r.Rule("file-chain", "every requested file name is passed on, completely and exactly once, from the request to the lint workers")
	r.Rule("only-requested", "every file put into the work queue comes from that chain")
	r.Rule("worker-complete", "a worker handles every file it takes: all rules are set up and the file is traversed, once, and it stops only when the queue is empty")
	r.Rule("worker-exists", "at least one worker is started and all are waited for")
	r.Rule("queue-capacity", "filling the work queue cannot block before a worker runs")
	r.Rule("queue-closed", "a work queue is closed, once, after everything was sent")
	r.Rule("own-rules", "the rules run on a file are those configured for this file, each with its own name and options")
	r.Rule("registry-lookup", "a rule is found by its own name among all registered rules")
	r.Rule("listeners-kept", "registering a listener keeps those registered before")
	r.Rule("listeners-called", "every listener registered for a kind is called for a node of that kind")
	h := headless(r)
	if h == nil {
		return
	}
	inv := h.ruleCalls(r)
	if !r.Need(len(inv) > 0, "calls that enter rule code") {
		return
	}
	// --- the workers' file loops
	files := map[string]Anchor{}
	for _, rc := range inv {
		if a, ok := h.currentFile(rc); ok {
			files[a.String()] = a
		}
	}
	if !r.Need(len(files) > 0, "the loop of a worker over its files") {
		return
	}
	ff := &fileFlow{h: h, r: r, term: map[string]bool{}, memo: map[string]string{}, busy: map[string]bool{}, sinksOn: map[Node]fcoll{}, loops: map[string]bool{}}
	var fks []string
	for k := range files {
		fks = append(fks, k)
	}
	sort.Strings(fks)
	for _, k := range fks {
		a := files[k]
		u, ok := a.V.(*ssa.UnOp)
		if !ok || a.Kind != "recv" {
			r.Bad("worker-complete", fnName(a.F.Fn), "", "the worker's file is not received from a queue: undecided")
			continue
		}
		for x := range h.collRoots(VV{a.F, u.X}) {
			ff.term[x] = true
		}
		h.workerLoop(r, a, inv)
	}
	// --- the chain
	starts := 0
	pt := h.payloadConfigField("file_paths")
	if !r.Need(pt != "", "the member file_paths of a request configuration") {
		return
	}
	for _, f := range h.G.Frames {
		if f.Thread != h.G.Root {
			continue
		}
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "slice" || !h.set[Node{F: f, I: it.If}] {
				continue
			}
			a := h.anchor(VV{f, it.Coll})
			if !strings.HasSuffix(a.Path, "."+pt) || a.Kind != "elem" {
				continue
			}
			el := Anchor{Kind: "elem", F: f, V: it.Index, Coll: it.Coll}
			if len(h.sinks(f, it, el, h.failureEdges)) == 0 {
				continue
			}
			starts++
			w := ff.transfer(f, it, el)
			r.Ob("file-chain", "requested files from "+fnName(f.Fn), w == "", ff.where(f, it), "a requested file may never be linted, or be linted twice: "+w)
			// the loop over the configurations around it
			o := h.outerIter(a)
			if o == nil {
				r.Bad("file-chain", "configurations in "+fnName(f.Fn), ff.where(f, it), "no complete loop over the request's configurations found")
				continue
			}
			hd := Node{F: f, I: it.If}
			ow := h.iterEvery(o.F, o.It, func(n Node) bool { return n == hd }, h.failureEdges)
			r.Ob("file-chain", "configurations in "+fnName(o.F.Fn), ow == "", ff.where(o.F, o.It), "a configuration of the request can be skipped: "+ow)
			// the key under which the configuration is kept is the name passed on
			h.configEntry(r, ff, f, it, el, a)
		}
	}
	h.namedProjects(r, ff)
	r.Need(starts > 0, "a loop over the requested files that passes them on")
	r.Info["chain loops"] = ff.hops
	// --- nothing else enters the queue
	for _, n := range h.Nodes {
		s, ok := n.I.(*ssa.Send)
		if !ok || !overlap(ff.term, h.collRoots(VV{n.F, s.Chan})) {
			continue
		}
		_, ok = ff.sinksOn[n]
		r.Ob("only-requested", "send in "+h.where(n), ok, h.G.nodePos(n), "a file enters the work queue outside the chain of requested files, or more than once")
	}
	ff.wholeLists()
	h.noCuts(r, "own-rules", func(t types.Type) bool {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		if n, ok := deref(t).(*types.Named); !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
			return false
		}
		if st.NumFields() > 6 {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isFuncT(f.Type()) || strings.Contains(f.Type().String(), "headless") || f.Name() == "Options" {
				return true
			}
		}
		return false
	})
	h.queueProtocol(r, ff, inv)
	h.workersExist(r, inv, ff.lists)
	h.ownRules(r, inv)
	h.listenerTables(r, inv)
	r.Min("file-chain", 2)
	r.Min("worker-complete", 4)
	r.Min("own-rules", 8)
	r.Min("registry-lookup", 1)
	r.Min("listeners-kept", 4)
	r.Min("listeners-called", 4)
	r.Min("only-requested", 2)
	r.Min("queue-closed", 4)
	r.Min("queue-capacity", 3)
}

// currentFile: the file item of the worker loop around a call into rule code.
func (h *Headless) currentFile(rc ruleCall) (Anchor, bool) {
	th := rc.N.F.Thread
	var best *Iter
	var bf *Frame
	for f := rc.N.F; f != nil; f = f.Parent {
		for _, it := range itersIn(f.Fn) {
			if it.Kind == "chan" && isNamed(deref(elemType(it.Coll.Type())), pAst, "SourceFile") && f.Thread == th {
				best, bf = it, f
			}
		}
	}
	// several loops in one function: the one whose body holds the call
	if best == nil {
		return Anchor{}, false
	}
	for _, it := range itersIn(bf.Fn) {
		if it.Kind != "chan" || !isNamed(deref(elemType(it.Coll.Type())), pAst, "SourceFile") {
			continue
		}
		be := Node{F: bf, I: it.BodyEntry().Instrs[0]}
		hd := Node{F: bf, I: it.Loop.Header.Instrs[0]}
		if h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, nil)[rc.N] {
			return Anchor{Kind: "recv", F: bf, V: it.Source}, true
		}
	}
	return Anchor{}, false
}

func (h *Headless) iterAt(f *Frame, src ssa.Value) *Iter {
	for _, it := range itersIn(f.Fn) {
		if it.Source == src {
			return it
		}
	}
	return nil
}

// workerLoop: the loop over the file queue is complete and every file is set up and traversed.
func (h *Headless) workerLoop(r *R, file Anchor, inv []ruleCall) {
	f := file.F
	it := h.iterAt(f, file.V)
	con := "worker in " + fnName(f.Fn) + " at " + fmt.Sprint(len(f.Fn.Blocks))
	con = "worker in " + fnName(f.Fn)
	pos := h.G.nodePos(Node{F: f, I: it.If})
	// traversal of the file
	trav := func(n Node) bool {
		c := callOf(n)
		if c == nil || !strings.HasSuffix(realPath(h.W, c), "ForEachChild") || n.F.Thread != f.Thread {
			return false
		}
		if inCallback(n.F) {
			return false
		}
		if len(c.Args) == 0 {
			return false
		}
		v := c.Args[0]
		for {
			if fa, ok := v.(*ssa.FieldAddr); ok {
				v = fa.X
				continue
			}
			if cl, ok := v.(*ssa.Call); ok && len(cl.Call.Args) > 0 && strings.HasSuffix(realPath(h.W, &cl.Call), ".AsNode") {
				v = cl.Call.Args[0]
				continue
			}
			break
		}
		return h.sameAnchor(h.anchor(VV{n.F, v}), file)
	}
	w := h.iterEvery(f, it, trav, nil)
	r.Ob("worker-complete", con+": traversal", w == "", pos, "a file taken from the queue is not traversed: "+w)
	hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
	be := Node{F: f, I: it.BodyEntry().Instrs[0]}
	for n := range h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, nil) {
		if trav(n) {
			again := false
			for m := range h.G.Reach(h.G.After(n), func(n Node) bool { return n == hd }, nil) {
				if trav(m) && m.F == n.F {
					again = true
				}
			}
			r.Ob("worker-complete", con+": traversal once", !again, h.G.nodePos(n), "a file can be traversed twice")
		}
	}
	// the setup calls run in a complete loop over the rules, which every file passes
	n := 0
	for _, rc := range inv {
		if !rc.Setup || rc.N.F.Thread != f.Thread {
			continue
		}
		cf, ok := h.currentFile(rc)
		if !ok || !h.sameAnchor(cf, file) {
			continue
		}
		n++
		ok2, why := false, "the rules are not set up in a loop over the configured rules"
		// find the iteration around the setup call
		for g := rc.N.F; g != nil; g = g.Parent {
			for _, jt := range itersIn(g.Fn) {
				if jt.Kind != "slice" || jt == it {
					continue
				}
				jb := Node{F: g, I: jt.BodyEntry().Instrs[0]}
				jh := Node{F: g, I: jt.Loop.Header.Instrs[0]}
				if g == f && jt.If == it.If || !h.G.Reach([]Node{jb}, func(x Node) bool { return x == jh }, nil)[rc.N] {
					continue
				}
				if !inIter(h, g, jt, f, it) {
					continue
				}
				if w := h.iterEvery(g, jt, func(x Node) bool { return x == rc.N }, nil); w != "" {
					why = w
					continue
				}
				// the loop itself is passed for every file, before the traversal
				test := Node{F: g, I: jt.If}
				seen := h.G.Reach([]Node{be}, func(x Node) bool { return x == test || x == hd }, nil)
				bad := seen[hd]
				for x := range seen {
					if trav(x) {
						bad = true
					}
				}
				if bad {
					why = "a file can be traversed without its rules having been set up"
					continue
				}
				ok2 = true
			}
		}
		r.Ob("worker-complete", con+": setup", ok2, h.G.nodePos(rc.N), why)
	}
	if n == 0 {
		r.Bad("worker-complete", con+": setup", pos, "no rule is set up in this worker loop")
	}
	// the loop over the work items around it
	if u, ok := file.V.(*ssa.UnOp); ok {
		q := h.anchor(VV{f, u.X})
		if q.Kind == "recv" {
			if o := h.iterAt(q.F, q.V); o != nil {
				test := Node{F: f, I: it.If}
				w := h.iterEvery(q.F, o, func(n Node) bool { return n == test }, nil)
				r.Ob("worker-complete", con+": work items", w == "", h.G.nodePos(Node{F: q.F, I: o.If}), "a work item can be dropped: "+w)
			} else {
				r.Bad("worker-complete", con+": work items", pos, "the loop over the work items is not complete")
			}
		}
	}
}

func inCallback(f *Frame) bool {
	for ; f != nil && f.Parent != nil; f = f.Parent {
		if f.Kind == kCallback {
			return true
		}
		if f.Thread == f {
			return false
		}
	}
	return false
}

// inIter: loop (g,jt) runs inside the body of loop (f,it).
func inIter(h *Headless, g *Frame, jt *Iter, f *Frame, it *Iter) bool {
	hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
	be := Node{F: f, I: it.BodyEntry().Instrs[0]}
	if g == f {
		return it.Loop.Body[jt.If.Block()] && jt.Loop.Header != it.Loop.Header
	}
	return h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, nil)[Node{F: g, I: jt.If}]
}

// payloadConfigField: the Go field of the request configuration with the given JSON name.
func (h *Headless) payloadConfigField(js string) string {
	sc := h.W.L.Pkgs[pCmd]
	if sc == nil || sc.Types == nil {
		return ""
	}
	for _, n := range sc.Types.Scope().Names() {
		tn, ok := sc.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || jsonField(st, "rules") == nil && js != "name" && js != "options" {
			continue
		}
		if js == "name" || js == "options" {
			if jsonField(st, "name") == nil || jsonField(st, "options") == nil {
				continue
			}
		} else if jsonField(st, "file_paths") == nil {
			continue
		}
		if f := jsonField(st, js); f != nil {
			return f.Name()
		}
	}
	return ""
}

// outerIter: the loop whose element the anchor is a part of.
func (h *Headless) outerIter(a Anchor) *frameIter {
	if a.Kind != "elem" {
		return nil
	}
	for _, it := range itersIn(a.F.Fn) {
		if it.Kind == "slice" && (it.Index == a.V) && sameVal(it.Coll, a.Coll) {
			return &frameIter{a.F, it}
		}
	}
	return nil
}

// configEntry: the map from file name to rules holds, under the name that is passed on, the rules
// of the same configuration.
func (h *Headless) configEntry(r *R, ff *fileFlow, f *Frame, it *Iter, el, coll Anchor) {
	rulesF := h.payloadConfigField("rules")
	cfg := coll
	cfg.Path = strings.TrimSuffix(cfg.Path, "."+h.payloadConfigField("file_paths")) + "." + rulesF
	var keys []Node
	for _, s := range h.sinks(f, it, el, h.failureEdges) {
		mu, ok := s.n.I.(*ssa.MapUpdate)
		if !ok || s.c.kind != "key" {
			continue
		}
		a := h.anchor(VV{s.n.F, mu.Value})
		ok = h.sameAnchor(a, cfg)
		r.Ob("own-rules", "configuration entry in "+fnName(f.Fn), ok, h.G.nodePos(s.n), "the entry of a file does not hold the rules of its own configuration: "+a.String())
		keys = append(keys, s.n)
		// key equals what is passed on
		for n, c := range ff.sinksOn {
			if c.kind != "val" || !it.Loop.Body[n.I.Block()] || n.F != f {
				continue
			}
			if _, es, ok := h.appendElems(n); ok {
				for _, e := range es {
					same := h.sameAnchor(h.anchor(e), h.anchor(VV{s.n.F, mu.Key})) || h.sameComputation(e, VV{s.n.F, mu.Key}, 0)
					r.Ob("own-rules", "file key in "+fnName(f.Fn), same, h.G.nodePos(s.n), "the key of the configuration entry is not the file name that is passed on")
				}
			}
		}
	}
	if len(keys) == 0 {
		r.Bad("own-rules", "configuration entry in "+fnName(f.Fn), ff.where(f, it), "no configuration entry is made for a requested file")
		return
	}
	at := func(n Node) bool { return isIn(keys, n) }
	w := h.iterEvery(f, it, at, h.failureEdges)
	r.Ob("own-rules", "configuration entry on every path of "+fnName(f.Fn), w == "", ff.where(f, it), "a requested file gets no configuration entry: "+w)
}

// sameComputation: two calls of the same function on the same values.
func (h *Headless) sameComputation(a, b VV, d int) bool {
	if d > 4 {
		return false
	}
	x, y := h.anchor(a), h.anchor(b)
	if h.sameAnchor(x, y) {
		return true
	}
	if x.Kind != "call" || y.Kind != "call" || x.Path != y.Path {
		return false
	}
	cx, cy := x.V.(*ssa.Call).Call, y.V.(*ssa.Call).Call
	if cx.IsInvoke() || cy.IsInvoke() || cx.StaticCallee() == nil || cx.StaticCallee() != cy.StaticCallee() {
		return false
	}
	for i := range cx.Args {
		if !h.sameComputation(VV{x.F, cx.Args[i]}, VV{y.F, cy.Args[i]}, d+1) {
			return false
		}
	}
	return true
}

// bigEnough: the channel is made with the length of a collection as its capacity, so that sending
// one value per element never blocks.
func (h *Headless) bigEnough(ch VV) (bool, string) {
	why := "the queue is not made in the analysed code"
	ok := false
	for _, o := range h.G.Origins(ch) {
		if c, isC := o.V.(*ssa.Const); isC && c.Value == nil {
			continue
		}
		mc, isM := o.V.(*ssa.MakeChan)
		if !isM {
			return false, why
		}
		l := h.capLen(VV{o.F, mc.Size}, 0)
		if !l {
			if k, isC := constInt(mc.Size); isC {
				return false, fmt.Sprintf("the capacity of the queue is fixed (%d)", k)
			}
			return false, "cannot relate the capacity of the queue to the number of elements"
		}
		ok = true
	}
	return ok, why
}

func (h *Headless) capLen(v VV, d int) bool {
	if d > 6 {
		return false
	}
	if lenArg(v.V) != nil {
		return true
	}
	switch x := v.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return h.capLen(VV{v.F, x.X}, d+1) || h.capLen(VV{v.F, x.Y}, d+1)
		}
		if k, ok := constInt(x.Y); ok && x.Op == token.MUL && k > 0 {
			return h.capLen(VV{v.F, x.X}, d+1)
		}
		return false
	case *ssa.Call:
		if calleePath(&x.Call) == "builtin.max" {
			for _, a := range x.Call.Args {
				if h.capLen(VV{v.F, a}, d+1) {
					return true
				}
			}
		}
		return false
	case *ssa.Convert:
		return h.capLen(VV{v.F, x.X}, d+1)
	}
	os := h.G.Origins(v)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if o.Path != "" || o.V == v.V && o.F == v.F || !h.capLen(VV{o.F, o.V}, d+1) {
			return false
		}
	}
	return true
}

type queueUse struct {
	ch    map[string]bool
	sends []Node
	recvs []*frameIter
	close []Node
	any   VV
}

// queues: the channels that carry the requested files to and into the workers.
func (h *Headless) queues(ff *fileFlow, inv []ruleCall) []*queueUse {
	var qs []*queueUse
	add := func(roots map[string]bool, v VV) {
		for _, q := range qs {
			if overlap(q.ch, roots) {
				for k := range roots {
					q.ch[k] = true
				}
				return
			}
		}
		qs = append(qs, &queueUse{ch: roots, any: v})
	}
	threads := map[*Frame]bool{}
	for _, rc := range inv {
		threads[rc.N.F.Thread] = true
	}
	for _, n := range h.Nodes {
		if s, ok := n.I.(*ssa.Send); ok {
			if _, in := ff.sinksOn[n]; in {
				add(h.collRoots(VV{n.F, s.Chan}), VV{n.F, s.Chan})
			}
		}
		if u, ok := n.I.(*ssa.UnOp); ok && u.Op == token.ARROW && threads[n.F.Thread] {
			add(h.collRoots(VV{n.F, u.X}), VV{n.F, u.X})
		}
	}
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.Send:
			r := h.collRoots(VV{n.F, x.Chan})
			for _, q := range qs {
				if overlap(q.ch, r) {
					q.any = VV{n.F, x.Chan}
					q.sends = append(q.sends, n)
				}
			}
		default:
			if c := callOf(n); c != nil && calleePath(c) == "builtin.close" {
				r := h.collRoots(VV{n.F, c.Args[0]})
				for _, q := range qs {
					if overlap(q.ch, r) {
						q.close = append(q.close, n)
					}
				}
			}
		}
	}
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "chan" || !h.set[Node{F: f, I: it.If}] {
				continue
			}
			r := h.collRoots(VV{f, it.Coll})
			for _, q := range qs {
				if overlap(q.ch, r) {
					q.recvs = append(q.recvs, &frameIter{f, it})
				}
			}
		}
	}
	return qs
}

// queueProtocol: queues are closed exactly when everything is sent, and filling one never blocks
// for ever.
func (h *Headless) queueProtocol(r *R, ff *fileFlow, inv []ruleCall) {
	qs := h.queues(ff, inv)
	for _, q := range qs {
		if len(q.sends) == 0 {
			continue
		}
		con := "queue sent to in " + h.where(q.sends[0])
		if len(q.close) == 0 {
			r.Bad("queue-closed", con, h.G.nodePos(q.sends[0]), "the queue is never closed: its receivers wait for ever")
			continue
		}
		for _, c := range q.close {
			th := c.F.Thread
			bad := ""
			after := h.G.Reach(h.G.After(c), func(n Node) bool { return false }, nil)
			for _, d := range q.close {
				if d.F.Thread == th && after[d] && h.sameQueueInstance(q, c, d) {
					bad = "the queue can be closed twice"
				}
			}
			for _, s := range q.sends {
				if s.F.Thread == th {
					if h.sameRound(q, c, s, after) {
						bad = "a send at " + h.G.nodePos(s) + " can follow the close"
					}
				} else if s.F.Thread == h.G.Root {
					if h.G.Reach(h.G.After(spawnNode(th)), nil, func(from Node, e Edge) bool { return e.To.F == th })[s] {
						bad = "the queue can be closed before the send at " + h.G.nodePos(s)
					}
				} else if !h.joinedBefore(s.F.Thread, c) {
					bad = "the queue can be closed while the sender at " + h.G.nodePos(s) + " still runs"
				}
			}
			r.Ob("queue-closed", con+": closed in "+h.where(c), bad == "", h.G.nodePos(c), bad)
			// always reached in its thread
			e, _ := h.G.Entry(th)
			rets := h.frameReturns(th)
			if th == h.G.Root {
				// after the sends
				for _, s := range q.sends {
					if s.F.Thread != th {
						continue
					}
					_, ok := h.mustPass(h.G.After(s), func(n Node) bool { return isIn(q.close, n) }, func(n Node) bool { return rets[n] }, h.failureEdges)
					r.Ob("queue-closed", con+": always", ok, h.G.nodePos(s), "the queue may stay open after this send")
				}
			} else {
				_, ok := h.mustPass([]Node{e}, func(n Node) bool { return isIn(q.close, n) }, func(n Node) bool { return rets[n] }, nil)
				r.Ob("queue-closed", con+": always", ok, h.G.nodePos(c), "the queue may stay open")
			}
		}
		// filling
		for _, s := range q.sends {
			big, why := h.bigEnough(VV{s.F, s.I.(*ssa.Send).Chan})
			ok := big
			if !ok {
				// receivers run concurrently and are themselves never blocked by this thread
				ok = true
				n := 0
				for _, rv := range q.recvs {
					w := rv.F.Thread
					if w == s.F.Thread {
						ok = false
						why = "the queue is emptied by the thread that fills it; " + why
						continue
					}
					n++
					for _, q2 := range qs {
						for _, s2 := range q2.sends {
							if s2.F.Thread != w || q2 == q {
								continue
							}
							if b2, w2 := h.bigEnough(q2.any); !b2 {
								for _, rv2 := range q2.recvs {
									if rv2.F.Thread == s.F.Thread {
										ok, why = false, "the receivers can block on their own queue, emptied only after this one is filled: "+w2
									}
								}
							}
						}
					}
					// started before, or started independently of the end of the sends
					if w == h.G.Root {
						continue
					}
					sp := spawnNode(w)
					if sp.F.Thread == s.F.Thread {
						e, _ := h.G.Entry(s.F.Thread)
						seen := h.G.Reach([]Node{e}, func(x Node) bool { return x == sp }, func(from Node, ed Edge) bool {
							x, isIf := from.I.(*ssa.If)
							return isIf && h.emptyCountEdge(from.F, x, ed, sp)
						})
						if seen[s] {
							ok, why = false, "no worker has been started yet; "+why
						}
					}
				}
				if n == 0 {
					ok = false
				}
			}
			r.Ob("queue-capacity", "queue filled in "+h.where(s), ok, h.G.nodePos(s), "the run can hang: "+why)
			// joined before it is received: all of it must fit
			for _, rv := range q.recvs {
				if s.F.Thread != h.G.Root && rv.F.Thread != s.F.Thread && h.joinedBefore(s.F.Thread, Node{F: rv.F, I: rv.It.If}) && !big && rv.F.Thread == spawnNode(s.F.Thread).F.Thread {
					r.Bad("queue-capacity", "senders joined before "+fnName(rv.F.Fn)+" receives", h.G.nodePos(s), "the run can hang: "+why)
				}
			}
		}
	}
}

// sameRound: the send can follow the close on the same channel (not one made afresh in between).
func (h *Headless) sameRound(q *queueUse, c, s Node, after map[Node]bool) bool {
	if !after[s] {
		return false
	}
	mk := h.makers(q)
	return h.G.Reach(h.G.After(c), func(n Node) bool { return mk[n] }, nil)[s]
}

func (h *Headless) sameQueueInstance(q *queueUse, c, d Node) bool {
	mk := h.makers(q)
	return h.G.Reach(h.G.After(c), func(n Node) bool { return mk[n] }, nil)[d]
}

func (h *Headless) makers(q *queueUse) map[Node]bool {
	m := map[Node]bool{}
	for _, o := range h.G.Origins(q.any) {
		if mc, ok := o.V.(*ssa.MakeChan); ok {
			m[Node{F: o.F, I: mc}] = true
		}
	}
	return m
}

// workersExist: worker threads are started in a loop that runs at least once, and waited for.
func (h *Headless) workersExist(r *R, inv []ruleCall, lists map[string]bool) {
	seen := map[*Frame]bool{}
	for _, rc := range inv {
		th := rc.N.F.Thread
		if th == h.G.Root || seen[th] {
			continue
		}
		seen[th] = true
		con := "worker started in " + fnName(th.Parent.Fn)
		sp := spawnNode(th)
		// every path through the spawning function starts one, unless the worker count is zero
		e, _ := h.G.Entry(th.Parent)
		rets := h.frameReturns(th.Parent)
		atLeast := func(from Node, ed Edge) bool {
			// an integer loop whose bound is a positive number runs at least once: cut its exit on entry
			x, ok := from.I.(*ssa.If)
			if !ok {
				return false
			}
			if empty, ok := h.emptyTest(from.F, x.Cond, lists); ok && empty == (ed.Branch == 1) {
				return true // no file, no work
			}
			return h.emptyCountEdge(from.F, x, ed, sp)
		}
		_, ok := h.mustPass([]Node{e}, func(n Node) bool { return n == sp }, func(n Node) bool { return rets[n] }, atLeast)
		r.Ob("worker-exists", con, ok, h.G.nodePos(sp), "the lint run can return without having started a worker")
		// no iteration of the loop around it goes by without starting one
		var in *Loop
		for _, l := range loopsOf(sp.F.Fn) {
			if l.Body[sp.I.Block()] && (in == nil || len(l.Body) < len(in.Body)) {
				in = l
			}
		}
		if in != nil {
			hd := Node{F: sp.F, I: in.Header.Instrs[0]}
			seen := h.G.Reach(h.G.After(hd), func(n Node) bool {
				return n == sp || n == hd || n.F == sp.F && n.At == nil && !in.Body[n.I.Block()]
			}, nil)
			r.Ob("worker-exists", con+": every iteration", sp == hd || !seen[hd], h.G.nodePos(sp), "an iteration of the loop may start no worker")
		}
		bad := ""
		for ret := range rets {
			if !h.joinedBefore(th, ret) {
				bad = h.G.nodePos(ret)
			}
		}
		r.Ob("worker-exists", con+": waited for", bad == "", h.G.nodePos(sp), "the lint run can return at "+bad+" while a worker is still running")
	}
}

// emptyCountEdge: the edge leaves a counting loop whose bound is known to be at least one, before
// its first iteration; bounds: constants, runtime.GOMAXPROCS, runtime.NumCPU, max(1, ..).
func (h *Headless) emptyCountEdge(f *Frame, x *ssa.If, e Edge, sp Node) bool {
	b, ok := x.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	bound := VV{}
	exit := 0
	switch b.Op {
	case token.LSS, token.LEQ, token.NEQ:
		bound, exit = VV{f, b.Y}, 0
	case token.GTR:
		bound, exit = VV{f, b.X}, 0
	case token.GEQ:
		bound, exit = VV{f, b.Y}, 1
	default:
		return false
	}
	if e.Branch != exit {
		return false
	}
	isCounter := false
	for _, v := range []ssa.Value{b.X, b.Y} {
		if p, ok := v.(*ssa.Phi); ok && isIntT(p.Type()) {
			for _, l := range loopsOf(f.Fn) {
				// the test at the head of the very loop that starts the workers
				if l.Header == p.Block() && l.Header == x.Block() && f == sp.F && l.Body[sp.I.Block()] {
					isCounter = true
				}
			}
		}
		if k, ok := constInt(v); ok && k <= 0 { // the test before a loop over an integer
			isCounter = true
		}
	}
	if !isCounter {
		return false
	}
	bos := h.G.Origins(bound)
	if len(bos) == 0 {
		return false
	}
	for _, o := range bos {
		switch y := o.V.(type) {
		case *ssa.Const:
			if n, ok := constInt(y); !ok || n < 1 {
				return false
			}
		case *ssa.Call:
			cp := calleePath(&y.Call)
			if cp == "runtime.GOMAXPROCS" || cp == "runtime.NumCPU" {
				continue
			}
			if cp == "builtin.max" {
				pos := false
				for _, a := range y.Call.Args {
					if n, ok := constInt(a); ok && n >= 1 {
						pos = true
					}
				}
				if pos {
					continue
				}
			}
			return false
		default:
			return false
		}
	}
	return true
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ownRules: what is run on a file is what the request says for this file.
func (h *Headless) ownRules(r *R, inv []ruleCall) {
	nameF, optF, rulesF := h.payloadConfigField("name"), h.payloadConfigField("options"), h.payloadConfigField("rules")
	if !r.Need(nameF != "" && optF != "" && rulesF != "", "the members name, options and rules of the request") {
		return
	}
	done := map[string]bool{}
	for _, rc := range inv {
		if !rc.Setup {
			continue
		}
		con := "setup call in " + h.where(rc.N)
		pos := h.G.nodePos(rc.N)
		file, okF := h.currentFile(rc)
		if !okF {
			r.Bad("own-rules", con, pos, "not inside a worker's loop over files")
			continue
		}
		callee := h.anchor(VV{rc.N.F, callOf(rc.N).Value})
		// which registered rule: a lookup by name
		lk, ok := callee.V.(*ssa.Lookup)
		if callee.Kind != "lookup" || !ok {
			r.Bad("own-rules", con, pos, "the rule that runs is not found by its name: "+callee.String())
			continue
		}
		key := h.anchor(VV{callee.F, lk.Index})
		okName := key.Kind == "elem" && strings.HasSuffix(key.Path, "."+nameF)
		r.Ob("own-rules", con+": name", okName, pos, "the rule is not looked up by the name in the request: "+key.String())
		if !okName {
			continue
		}
		entry := key
		entry.Path = strings.TrimSuffix(key.Path, "."+nameF)
		// options
		c := callOf(rc.N)
		okOpt, whyOpt := false, "no options argument"
		for _, a := range c.Args {
			if types.IsInterface(a.Type()) {
				oa := h.anchor(VV{rc.N.F, a})
				want := entry
				want.Path += "." + optF
				okOpt = h.sameAnchor(oa, want)
				whyOpt = "the options passed are " + oa.String() + ", those of the rule's entry are " + want.String()
			}
		}
		r.Ob("own-rules", con+": options", okOpt, pos, whyOpt)
		// entry is an element of the entry of the current file
		cfg := h.anchor(VV{entry.F, entry.Coll})
		cl, ok := cfg.V.(*ssa.Lookup)
		okFile := false
		why := "the rules do not come from the entry of the current file: " + cfg.String()
		if cfg.Kind == "lookup" && ok {
			ka := VV{cfg.F, cl.Index}
			okFile = h.derived(ka, file, 0)
			why = "the entry is not looked up by the name of the current file: " + h.anchor(ka).String()
		}
		if okFile {
			// looked up anew for every file
			it := h.iterAt(file.F, file.V)
			be := Node{F: file.F, I: it.BodyEntry().Instrs[0]}
			hd := Node{F: file.F, I: it.Loop.Header.Instrs[0]}
			look := Node{F: cfg.F, I: cl}
			if h.G.Reach([]Node{be}, func(n Node) bool { return n == hd }, nil)[look] {
				if h.G.Reach([]Node{be}, func(n Node) bool { return n == look }, nil)[rc.N] {
					okFile, why = false, "a rule can be set up without the entry of the current file having been looked up: those of an earlier file run"
				}
			}
		}
		r.Ob("own-rules", con+": file entry", okFile, pos, why)
		// the list built from the entry is complete: one slot per rule, filled in a complete loop
		o := h.outerIter(entry)
		if o == nil {
			r.Bad("own-rules", con+": all rules", pos, "the rules of a file are not taken in a complete loop over its entry")
		} else {
			el := Anchor{Kind: "elem", F: o.F, V: o.It.Index, Coll: o.It.Coll}
			_ = el
			var store []Node
			for _, n := range h.Nodes {
				if n.F != o.F || !o.It.Loop.Body[n.I.Block()] {
					continue
				}
				switch x := n.I.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if fa, isF := x.Addr.(*ssa.FieldAddr); isF {
						ia, ok = fa.X.(*ssa.IndexAddr)
						if ok && !isFuncT(x.Val.Type()) {
							ok = false
						}
					}
					if !ok {
						continue
					}
					if _, isSl := ia.X.Type().Underlying().(*types.Slice); isSl && sameVal(ia.Index, o.It.Index) && h.lenIs(o.F, ia.X, o.It.Coll) {
						store = append(store, n)
					}
				case *ssa.Call:
					if _, es, ok := h.appendElems(n); ok && len(es) == 1 && h.retained(n) && isStructT(es[0].V.Type()) {
						store = append(store, n)
					}
				}
			}
			w := "nothing is stored"
			if len(store) > 0 {
				w = h.iterEvery(o.F, o.It, func(n Node) bool { return isIn(store, n) }, nil)
			}
			r.Ob("own-rules", con+": all rules", w == "", h.G.nodePos(Node{F: o.F, I: o.It.If}), "a configured rule can be left out: "+w)
		}
		// registry
		reg := VV{callee.F, lk.X}
		k := rootsKey(h.collRoots(reg))
		if done[k] {
			continue
		}
		done[k] = true
		h.registryComplete(r, reg, lk)
	}
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// lenIs: the slice was made with the length of coll.
func (h *Headless) lenIs(f *Frame, s, coll ssa.Value) bool {
	for _, o := range h.G.Origins(VV{f, s}) {
		ms, ok := o.V.(*ssa.MakeSlice)
		if !ok {
			return false
		}
		l := lenArg(ms.Len)
		if l == nil || !(sameVal(l, coll) || h.sameAnchor(h.anchor(VV{o.F, l}), h.anchor(VV{f, coll}))) {
			return false
		}
	}
	return true
}

// registryComplete: the map rules are looked up in is filled from the list of all rules, by name.
func (h *Headless) registryComplete(r *R, reg VV, lk *ssa.Lookup) {
	roots := h.collRoots(reg)
	n := h.registryFill(r, &h.ruleLists, func(v VV) bool { return overlap(roots, h.collRoots(v)) })
	// a package-level table filled at initialisation
	for _, o := range h.G.Origins(reg) {
		g, ok := o.V.(*ssa.Global)
		if !ok {
			continue
		}
		for _, f := range h.W.allFns {
			if !isInitFn(f) || fnPkgPath(f) != g.Pkg.Pkg.Path() || !mentions(f, g) {
				continue
			}
			hi := newHeadless(h.W, f)
			made := map[string]bool{}
			for _, x := range hi.Nodes {
				if st, ok := x.I.(*ssa.Store); ok && st.Addr == g {
					for k := range hi.collRoots(VV{x.F, st.Val}) {
						made[k] = true
					}
				}
			}
			n += hi.registryFill(r, &h.ruleLists, func(v VV) bool {
				for _, o := range hi.G.Origins(v) {
					if o.V == ssa.Value(g) {
						return true
					}
				}
				return overlap(made, hi.collRoots(v))
			})
		}
	}
	r.Need(n > 0, "the loop that fills the table of rules by name")
}

func mentions(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// registryFill checks the loops that fill a table of rules and returns how many there are.
func (h *Headless) registryFill(r *R, lists *[]Origin, isReg func(VV) bool) int {
	n := 0
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "slice" || !isNamed(deref(elemType(it.Coll.Type())), pRule, "Rule") || !h.set[Node{F: f, I: it.If}] {
				continue
			}
			var ups []Node
			for _, x := range h.Nodes {
				mu, ok := x.I.(*ssa.MapUpdate)
				if ok && x.F == f && it.Loop.Body[x.I.Block()] && isReg(VV{x.F, mu.Map}) {
					ups = append(ups, x)
				}
			}
			if len(ups) == 0 {
				continue
			}
			n++
			w := h.iterEvery(f, it, func(x Node) bool { return isIn(ups, x) }, nil)
			r.Ob("registry-lookup", "registry filled in "+fnName(f.Fn), w == "", h.G.nodePos(Node{F: f, I: it.If}), "a registered rule can be missing from the lookup table: "+w)
			for _, x := range ups {
				mu := x.I.(*ssa.MapUpdate)
				k, v := h.anchor(VV{x.F, mu.Key}), h.anchor(VV{x.F, mu.Value})
				ok := h.sameObj(k, v) && k.Path == v.Path+".Name" && k.Kind == "elem"
				r.Ob("registry-lookup", "entry in "+fnName(f.Fn), ok, h.G.nodePos(x), "a rule is entered under another name: key "+k.String()+", rule "+v.String())
			}
			src := h.G.Origins(VV{f, it.Coll})
			okG := len(src) > 0
			for _, o := range src {
				_, ok := ruleList(h.W, o.V, 0)
				okG = okG && ok
			}
			*lists = append(*lists, src...)
			r.Ob("registry-lookup", "source of "+fnName(f.Fn), okG, h.G.nodePos(Node{F: f, I: it.If}), "the lookup table is not filled from the list of all rules: "+originStrings(src))
		}
	}
	// nothing else is entered or removed
	for _, x := range h.Nodes {
		if c := callOf(x); c != nil && isBuiltin(c, "delete") && isReg(VV{x.F, c.Args[0]}) {
			r.Bad("registry-lookup", "entry removed in "+h.where(x), h.G.nodePos(x), "a rule is removed from the lookup table")
		}
		mu, ok := x.I.(*ssa.MapUpdate)
		if !ok || !isReg(VV{x.F, mu.Map}) {
			continue
		}
		if h.anchor(VV{x.F, mu.Key}).Kind != "elem" {
			r.Bad("registry-lookup", "other entry in "+h.where(x), h.G.nodePos(x), "the lookup table is changed elsewhere")
		}
	}
	return n
}

// listenerTables: registration keeps earlier listeners, dispatch calls all of them.
func (h *Headless) listenerTables(r *R, inv []ruleCall) {
	lt := h.W.namedType(pRule, "RuleListeners").Underlying().(*types.Map)
	for _, n := range h.Nodes {
		mu, ok := n.I.(*ssa.MapUpdate)
		if !ok || !holdsFunc(mu.Value.Type(), lt.Elem(), 0) || h.emptied(n, mu) || fnPkgPath(n.F.Fn) != pLinter {
			continue
		}
		con := "registration in " + h.where(n)
		call, isCall := mu.Value.(*ssa.Call)
		if !isCall {
			r.Bad("listeners-kept", con, h.G.nodePos(n), "the entry of a kind is replaced: listeners of earlier rules are lost")
			continue
		}
		base, es, ok := h.appendElems(Node{F: n.F, I: call})
		if !ok || len(es) == 0 {
			r.Bad("listeners-kept", con, h.G.nodePos(n), "the entry of a kind is not extended by append: undecided")
			continue
		}
		r.Ob("listeners-kept", con, h.keepsEntry(n, mu, base), h.G.nodePos(n), "the entry of a kind is not extended but rebuilt: listeners of earlier rules can be lost")
		// every listener of the rule's map is registered, under its own kind
		ka := h.anchor(VV{n.F, mu.Key})
		if ka.Kind != "item" || ka.Path != "#1" {
			r.Bad("listeners-kept", con+": kind", h.G.nodePos(n), "a listener is registered under another kind: "+ka.String())
			continue
		}
		okEl := false
		for _, e := range es {
			if st, isS := e.V.Type().Underlying().(*types.Struct); isS {
				for i := 0; i < st.NumFields(); i++ {
					a := h.anchorP(e, "."+st.Field(i).Name(), 0)
					if a.Kind == "item" && a.V == ka.V && a.F == ka.F && a.Path == "#2" {
						okEl = true
					}
				}
			}
			a := h.anchor(e)
			if a.Kind == "item" && a.V == ka.V && a.F == ka.F && a.Path == "#2" {
				okEl = true
			}
		}
		r.Ob("listeners-kept", con+": kind", okEl, h.G.nodePos(n), "the listener registered is not the one the rule gave for this kind")
		if it := h.iterAt(ka.F, ka.V); it != nil {
			w := h.iterEvery(ka.F, it, func(x Node) bool { return x == n }, nil)
			r.Ob("listeners-kept", con+": all", w == "", h.G.nodePos(n), "a listener of a rule can be left out: "+w)
		} else {
			r.Bad("listeners-kept", con+": all", h.G.nodePos(n), "not a complete loop over the rule's listeners")
		}
	}
	for _, rc := range inv {
		if rc.Setup {
			continue
		}
		con := "dispatch in " + h.where(rc.N)
		pos := h.G.nodePos(rc.N)
		fn := h.anchor(VV{rc.N.F, callOf(rc.N).Value})
		o := h.outerIter(fn)
		if o == nil {
			r.Bad("listeners-called", con, pos, "listeners are not called in a complete loop: "+fn.String())
			continue
		}
		w := h.iterEvery(o.F, o.It, func(n Node) bool { return n == rc.N }, nil)
		r.Ob("listeners-called", con, w == "", pos, "a registered listener can be left out: "+w)
		// the list is the entry of the kind, and the loop is reached whenever there is one
		ca := h.anchor(VV{o.F, o.It.Coll})
		lk, ok := ca.V.(*ssa.Lookup)
		if ca.Kind != "lookup" || !ok {
			r.Bad("listeners-called", con+": entry", pos, "the listeners called are not those registered for a kind: "+ca.String())
			continue
		}
		// kind and node are the arguments of the dispatch
		kf, kv := h.throughLocal(VV{ca.F, lk.Index})
		nf, nv := h.throughLocal(VV{rc.N.F, callOf(rc.N).Args[0]})
		kp, ok1 := kv.(*ssa.Parameter)
		np, ok2 := nv.(*ssa.Parameter)
		r.Ob("listeners-called", con+": arguments", ok1 && ok2 && kf.Fn == nf.Fn && kp.Parent() == np.Parent(), pos, "the kind looked up or the node passed is not that of the dispatch")
		e, _ := h.G.Entry(o.F)
		if ca.F.Fn == kf.Fn {
			e, _ = h.G.Entry(ca.F)
		}
		rets := h.frameReturns(e.F)
		test := Node{F: o.F, I: o.It.If}
		_, ok = h.mustPass([]Node{e}, func(n Node) bool { return n == test }, func(n Node) bool { return rets[n] }, func(from Node, ed Edge) bool {
			x, isIf := from.I.(*ssa.If)
			if !isIf {
				return false
			}
			found, ok := presence(x.Cond, lk)
			return ok && found != (ed.Branch == 1)
		})
		r.Ob("listeners-called", con+": reached", ok, pos, "the dispatch can return without calling the registered listeners")
	}
}

// throughLocal follows single-store local cells and bindings, not parameters.
func (h *Headless) throughLocal(v VV) (*Frame, ssa.Value) {
	for i := 0; i < 20; i++ {
		switch x := v.V.(type) {
		case *ssa.ChangeType:
			v.V = x.X
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if ss := h.cellStores(VV{v.F, al}, ""); len(ss) == 1 && ss[0].Path == "" {
					v = ss[0].Val
					continue
				}
			}
			return v.F, v.V
		default:
			return v.F, v.V
		}
	}
	return v.F, v.V
}

// namedProjects: a file without a project is not entered under the empty project name.
func (h *Headless) namedProjects(r *R, ff *fileFlow) {
	var ns []Node
	for n, c := range ff.sinksOn {
		if _, ok := n.I.(*ssa.MapUpdate); ok && c.kind == "nested" {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return h.G.less(ns[i], ns[j]) })
	for _, n := range ns {
		mu := n.I.(*ssa.MapUpdate)
		key := h.anchor(VV{n.F, mu.Key})
		if key.Kind != "item" {
			continue
		}
		var it *Iter
		for _, x := range itersIn(n.F.Fn) {
			if x.Loop.Body[mu.Block()] && key.F == n.F && x.Source == key.V {
				it = x
			}
		}
		if it == nil {
			continue
		}
		isKey := func(f *Frame, v ssa.Value) bool {
			if c, ok := v.(*ssa.Call); ok && calleePath(&c.Call) == "builtin.len" {
				v = c.Call.Args[0]
			}
			return h.sameAnchor(h.anchor(VV{f, v}), key)
		}
		empty := func(v ssa.Value) bool {
			s, ok := constStr(v)
			k, isK := constInt(v)
			return ok && s == "" || isK && k == 0
		}
		tested := false
		cut := func(from Node, e Edge) bool {
			x, ok := from.I.(*ssa.If)
			if !ok {
				return false
			}
			c, val := x.Cond, e.Branch == 1
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, val = u.X, !val
			}
			b, ok := c.(*ssa.BinOp)
			if !ok || !(isKey(from.F, b.X) && empty(b.Y) || isKey(from.F, b.Y) && empty(b.X)) {
				return false
			}
			switch b.Op {
			case token.EQL:
				tested = true
				return !val
			case token.NEQ:
				tested = true
				return val
			case token.GTR:
				if isKey(from.F, b.X) {
					tested = true
					return val
				}
			}
			return false
		}
		hd := Node{F: n.F, I: it.Loop.Header.Instrs[0]}
		be := Node{F: n.F, I: it.BodyEntry().Instrs[0]}
		seen := h.G.Reach([]Node{be}, func(x Node) bool { return x == hd }, cut)
		if tested {
			r.Ob("file-chain", "files without a project in "+fnName(n.F.Fn), !seen[n], h.G.nodePos(n), "a file that matches no project can be entered under an empty project name instead of the inferred project")
		}
	}
}

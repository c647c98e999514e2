package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Value identity: which element, received item, call result or cell a value is a
// part of. Two values with equal anchors, read in the same iteration, belong to
// the same object.
// ---------------------------------------------------------------------------

type Anchor struct {
	Kind string // elem, item (map iteration), recv, lookup, call, cell, global, param, const, val
	F    *Frame
	V    ssa.Value // defining value; for elem: the index
	Coll ssa.Value // elem: the collection
	Path string
}

func (a Anchor) String() string {
	n := ""
	if a.V != nil {
		n = a.V.Name()
	}
	fr := -1
	if a.F != nil {
		fr = a.F.ID
	}
	return fmt.Sprintf("%s %s@%d%s", a.Kind, n, fr, a.Path)
}

// base drops the path.
func (a Anchor) base() Anchor { a.Path = ""; return a }

func (h *Headless) sameAnchor(a, b Anchor) bool {
	if a.Kind != b.Kind || a.F != b.F || a.Path != b.Path {
		return false
	}
	switch a.Kind {
	case "elem":
		if a.V != b.V && !sameVal(a.V, b.V) {
			return false
		}
		if sameVal(a.Coll, b.Coll) {
			return true
		}
		return h.sameAnchor(h.anchor(VV{a.F, a.Coll}), h.anchor(VV{b.F, b.Coll}))
	case "const":
		return sameVal(a.V, b.V)
	case "lookup":
		if a.V == b.V {
			return true
		}
		x, ok1 := a.V.(*ssa.Lookup)
		y, ok2 := b.V.(*ssa.Lookup)
		return ok1 && ok2 && h.sameAnchor(h.anchor(VV{a.F, x.X}), h.anchor(VV{b.F, y.X})) && h.sameAnchor(h.anchor(VV{a.F, x.Index}), h.anchor(VV{b.F, y.Index}))
	}
	return a.V == b.V
}

// sameObj: the same object, whatever part of it.
func (h *Headless) sameObj(a, b Anchor) bool { return h.sameAnchor(a.base(), b.base()) }

// def is the node whose re-execution makes the anchor denote another instance.
func (a Anchor) def() (Node, bool) {
	if a.Kind == "elem" {
		if in, ok := a.V.(ssa.Instruction); ok {
			return Node{F: a.F, I: in}, true
		}
		return Node{}, false
	}
	if in, ok := a.V.(ssa.Instruction); ok && a.Kind != "cell" {
		return Node{F: a.F, I: in}, true
	}
	return Node{}, false
}

func (h *Headless) anchor(v VV) Anchor { return h.anchorP(v, "", 0) }

func (h *Headless) anchorP(v VV, path string, d int) Anchor {
	k := okey{v, path}
	if a, ok := h.amemo[k]; ok {
		return a
	}
	if h.abusy[k] {
		return Anchor{Kind: "val", F: v.F, V: v.V, Path: path}
	}
	h.abusy[k] = true
	a := h.anchorQ(v, path, d)
	delete(h.abusy, k)
	if len(h.abusy) == 0 {
		h.amemo[k] = a
	}
	return a
}

func (h *Headless) anchorQ(v VV, path string, d int) Anchor {
	self := Anchor{Kind: "val", F: v.F, V: v.V, Path: path}
	if d > 60 {
		return self
	}
	switch x := v.V.(type) {
	case *ssa.Parameter:
		self.Kind = "param"
		if v.F.Args != nil {
			for i, p := range v.F.Fn.Params {
				if p == x && i < len(v.F.Args) && v.F.Args[i].V != nil {
					return h.anchorP(v.F.Args[i], path, d+1)
				}
			}
		}
		return self
	case *ssa.FreeVar:
		for i, fv := range v.F.Fn.FreeVars {
			if fv == x && i < len(v.F.Bind) {
				return h.anchorP(v.F.Bind[i], path, d+1)
			}
		}
		return self
	case *ssa.ChangeType:
		return h.anchorP(VV{v.F, x.X}, path, d+1)
	case *ssa.MakeInterface:
		return h.anchorP(VV{v.F, x.X}, path, d+1)
	case *ssa.ChangeInterface:
		return h.anchorP(VV{v.F, x.X}, path, d+1)
	case *ssa.Const:
		self.Kind = "const"
		return self
	case *ssa.Field:
		fv, base, _ := fieldOf(x)
		return h.anchorP(VV{v.F, base}, "."+fv.Name()+path, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return h.anchorLoad(VV{v.F, x.X}, path, Node{F: v.F, I: x}, d+1)
		}
		if x.Op == token.ARROW {
			self.Kind = "recv"
			return self
		}
		return self
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return Anchor{Kind: "item", F: v.F, V: t, Path: fmt.Sprintf("#%d", x.Index) + path}
		case *ssa.UnOp:
			if t.Op == token.ARROW && x.Index == 0 {
				return Anchor{Kind: "recv", F: v.F, V: t, Path: path}
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return Anchor{Kind: "lookup", F: v.F, V: t, Path: path}
			}
		case *ssa.Call:
			if a, ok := h.anchorCall(v.F, t, x.Index, path, d); ok {
				return a
			}
			return Anchor{Kind: "call", F: v.F, V: t, Path: fmt.Sprintf("#%d", x.Index) + path}
		}
		return self
	case *ssa.Call:
		if a, ok := h.anchorCall(v.F, x, 0, path, d); ok {
			return a
		}
		self.Kind = "call"
		return self
	case *ssa.Lookup:
		self.Kind = "lookup"
		return self
	case *ssa.Phi:
		var first *Anchor
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			a := h.anchorP(VV{v.F, e}, path, d+1)
			if first == nil {
				first = &a
			} else if !h.sameAnchor(*first, a) {
				return self
			}
		}
		if first != nil && first.Kind == "const" {
			return *first
		}
		return self
	case *ssa.Global:
		self.Kind = "global"
		return self
	}
	return self
}

func (h *Headless) anchorCall(f *Frame, c *ssa.Call, idx int, path string, d int) (Anchor, bool) {
	key := siteKey{f, c, nil}
	if !h.G.inlined[key] {
		return Anchor{}, false
	}
	var first *Anchor
	for _, k := range h.G.kids[key] {
		for _, b := range k.Fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				a := h.anchorP(VV{k, ret.Results[idx]}, path, d+1)
				if first == nil {
					first = &a
				} else if !h.sameAnchor(*first, a) {
					return Anchor{}, false
				}
			}
		}
	}
	if first == nil {
		return Anchor{}, false
	}
	return *first, true
}

// anchorLoad resolves what is stored at *ptr.path when the node at is executed.
func (h *Headless) anchorLoad(ptr VV, path string, at Node, d int) Anchor {
	switch x := ptr.V.(type) {
	case *ssa.FieldAddr:
		fv, base, _ := fieldOf(x)
		return h.anchorLoad(VV{ptr.F, base}, "."+fv.Name()+path, at, d+1)
	case *ssa.IndexAddr:
		return Anchor{Kind: "elem", F: ptr.F, V: x.Index, Coll: x.X, Path: path}
	case *ssa.Parameter:
		if ptr.F.Args != nil {
			for i, p := range ptr.F.Fn.Params {
				if p == x && i < len(ptr.F.Args) && ptr.F.Args[i].V != nil {
					return h.anchorLoad(ptr.F.Args[i], path, at, d+1)
				}
			}
		}
	case *ssa.FreeVar:
		for i, fv := range ptr.F.Fn.FreeVars {
			if fv == x && i < len(ptr.F.Bind) {
				return h.anchorLoad(ptr.F.Bind[i], path, at, d+1)
			}
		}
	case *ssa.Global:
		return Anchor{Kind: "global", V: x, Path: path}
	case *ssa.Alloc:
		cell := Anchor{Kind: "cell", F: ptr.F, V: x, Path: path}
		if d > 40 {
			return cell
		}
		ss := h.cellStores(VV{ptr.F, x}, path)
		if len(ss) > 1 {
			ss, _ = h.reachingOf(at, ss)
		}
		if len(ss) == 1 && strings.HasPrefix(path, ss[0].Path) {
			return h.anchorP(ss[0].Val, path[len(ss[0].Path):], d+1)
		}
		return cell
	}
	a := h.anchorP(ptr, "", d+1)
	a.Path += "*" + path
	return a
}

// cellStores: the stores that can define part of root.path.
func (h *Headless) cellStores(root VV, path string) []memStore {
	h.G.buildStores()
	var r []memStore
	for _, s := range h.G.stores[rootKey(h.G, Loc{root, ""})] {
		if s.Map || s.Chan {
			continue
		}
		if strings.HasPrefix(path, s.Path) && isPathBreak(path[len(s.Path):]) || strings.HasPrefix(s.Path, path) && isPathBreak(s.Path[len(path):]) {
			r = append(r, s)
		}
	}
	return r
}

// reachingOf: which of the given stores can be the last one before node at (backwards
// from at); open tells that a path from the program entry reaches at without any.
func (h *Headless) reachingOf(at Node, ss []memStore) ([]memStore, bool) {
	by := map[Node][]memStore{}
	for _, s := range ss {
		by[s.Node] = append(by[s.Node], s)
	}
	var res []memStore
	open := h.back(at, func(n Node) bool {
		if x, ok := by[n]; ok {
			res = append(res, x...)
			return true
		}
		return false
	}, nil)
	return res, open
}

// back walks backwards from the predecessors of at; stop ends a path. It reports
// whether some path reaches the program entry (or the entry of a thread).
func (h *Headless) back(at Node, stop func(Node) bool, visit func(Node)) bool {
	rev := h.reverse()
	seen := map[Node]bool{}
	st := append([]Node(nil), rev[at]...)
	open := false
	if len(st) == 0 {
		open = true
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if stop(n) {
			continue
		}
		if visit != nil {
			visit(n)
		}
		ps := rev[n]
		if len(ps) == 0 {
			open = true
		}
		st = append(st, ps...)
	}
	return open
}

// structOf: the struct type with the fields of an anchor's path head, "" parts.
func pathHead(p string) (string, string) {
	if !strings.HasPrefix(p, ".") {
		return "", p
	}
	q := p[1:]
	for i := 0; i < len(q); i++ {
		if q[i] == '.' || q[i] == '*' || q[i] == '[' || q[i] == '{' || q[i] == '#' || q[i] == '<' {
			return q[:i], q[i:]
		}
	}
	return q, ""
}

func isFuncT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

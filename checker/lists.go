package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Lists built element by element: which list a value is a conversion of, and
// what each of its elements is made of.
// ---------------------------------------------------------------------------

type elemStore struct {
	Path string // of the element
	Val  VV
	Node Node
}

// converted is a list with one element for each element of another list, in order.
type converted struct {
	F      *Frame
	It     *Iter
	Stores []elemStore
}

// under gives a view of the entry point in which the edges are never taken.
func (h *Headless) under(cut Cut) *Headless {
	v := &Headless{W: h.W, Entry: h.Entry, amemo: map[okey]Anchor{}, abusy: map[okey]bool{}, set: map[Node]bool{}}
	v.G = h.G.Under(cut)
	for _, n := range h.Nodes {
		if v.G.alive(n) {
			v.Nodes = append(v.Nodes, n)
			v.set[n] = true
		}
	}
	return v
}

// enclosingIter: the innermost recognised iteration around a block.
func enclosingIter(f *Frame, b *ssa.BasicBlock) *Iter {
	var best *Iter
	for _, it := range itersIn(f.Fn) {
		if it.Loop.Body[b] && (best == nil || len(it.Loop.Body) < len(best.Loop.Body)) {
			best = it
		}
	}
	return best
}

// lists resolves a list value: conversions (one element per element of another list) and
// literals (fixed elements). why tells what could not be understood.
func (h *Headless) lists(v VV, cut Cut) (conv []*converted, lits [][]VV, why string) {
	for _, o := range h.G.Origins(v) {
		switch x := o.V.(type) {
		case *ssa.Const:
			if x.Value == nil {
				lits = append(lits, nil)
				continue
			}
		case *ssa.MakeSlice:
			if o.Path == "" {
				if n, ok := constInt(x.Len); ok && n == 0 {
					if len(h.elemStores(VV{o.F, x})) == 0 {
						lits = append(lits, nil)
						continue
					}
				}
				c, w := h.filled(VV{o.F, x}, x, cut)
				if w != "" {
					return nil, nil, w
				}
				conv = append(conv, c)
				continue
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok && o.Path == "" {
				if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
					es, ok := literalElems(o.F, al)
					if ok {
						lits = append(lits, es)
						continue
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && o.Path == "" {
				c, w := h.appended(Node{F: o.F, I: x}, cut)
				if w != "" {
					return nil, nil, w
				}
				conv = append(conv, c)
				continue
			}
		}
		return nil, nil, "the list comes from " + o.String()
	}
	if len(conv) > 0 {
		// the empty lists they start from
		var keep [][]VV
		for _, l := range lits {
			if len(l) > 0 {
				keep = append(keep, l)
			}
		}
		lits = keep
	}
	if len(conv) > 1 {
		for _, c := range conv[1:] {
			if c.F != conv[0].F || c.It.If != conv[0].It.If {
				return conv, lits, ""
			}
		}
		conv = conv[:1]
	}
	return conv, lits, ""
}

// literalElems: the elements of a slice literal, in order.
func literalElems(f *Frame, al *ssa.Alloc) ([]VV, bool) {
	n := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	es := make([]VV, n)
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.IndexAddr:
			i, ok := constInt(x.Index)
			if !ok || i < 0 || i >= n {
				return nil, false
			}
			for _, w := range *x.Referrers() {
				switch s := w.(type) {
				case *ssa.Store:
					if s.Addr == x {
						es[i] = VV{f, s.Val}
					}
				case *ssa.FieldAddr:
					return nil, false
				}
			}
		case *ssa.Slice:
		default:
			return nil, false
		}
	}
	for _, e := range es {
		if e.V == nil {
			return nil, false
		}
	}
	return es, true
}

func (h *Headless) elemStores(root VV) []elemStore {
	h.G.buildStores()
	var r []elemStore
	for _, s := range h.G.stores[rootKey(h.G, Loc{root, ""})] {
		if !s.Map && !s.Chan && strings.HasPrefix(s.Path, "[]") {
			r = append(r, elemStore{s.Path[2:], s.Val, s.Node})
		}
	}
	return r
}

// filled: a slice made with one slot per element and filled at the index of each.
func (h *Headless) filled(root VV, ms *ssa.MakeSlice, cut Cut) (*converted, string) {
	ss := h.elemStores(root)
	if len(ss) == 0 {
		return nil, "the list is never filled"
	}
	c := &converted{Stores: ss}
	paths := map[string]map[Node]bool{}
	for _, s := range ss {
		st, ok := s.Node.I.(*ssa.Store)
		if !ok {
			return nil, "an element is written at " + h.G.nodePos(s.Node)
		}
		a := st.Addr
		for {
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
				continue
			}
			break
		}
		ia, ok := a.(*ssa.IndexAddr)
		if !ok {
			return nil, "an element is written through a pointer at " + h.G.nodePos(s.Node)
		}
		var it *Iter
		for _, x := range itersIn(s.Node.F.Fn) {
			if x.Kind == "slice" && x.Index == ia.Index && x.Loop.Body[st.Block()] {
				it = x
			}
		}
		if it == nil {
			return nil, "an element is not written at the index of a full iteration at " + h.G.nodePos(s.Node)
		}
		if c.It == nil {
			c.F, c.It = s.Node.F, it
		} else if c.F != s.Node.F || c.It.If != it.If {
			return nil, "elements are written in several loops"
		}
		if paths[s.Path] == nil {
			paths[s.Path] = map[Node]bool{}
		}
		paths[s.Path][s.Node] = true
	}
	if l := lenArg(ms.Len); l == nil || !h.sameColl(VV{root.F, l}, VV{c.F, c.It.Coll}) {
		return nil, "the list is not made with the length of what it is filled from"
	}
	if root.F == c.F && c.It.Loop.Body[ms.Block()] || !inFrameTree(c.F, root.F) {
		return nil, "the list is not the one filled"
	}
	for _, ns := range paths {
		if w := h.iterEvery(c.F, c.It, func(n Node) bool { return ns[n] }, cut); w != "" {
			return nil, w
		}
	}
	return c, ""
}

func (h *Headless) sameColl(a, b VV) bool {
	if a == b || a.F == b.F && sameVal(a.V, b.V) {
		return true
	}
	return h.sameAnchor(h.anchor(a), h.anchor(b))
}

// appended: every iteration of a full loop appends exactly one element.
func (h *Headless) appended(n Node, cut Cut) (*converted, string) {
	it := enclosingIter(n.F, n.I.Block())
	if it == nil {
		return nil, "elements are appended outside a full iteration at " + h.G.nodePos(n)
	}
	c := &converted{F: n.F, It: it}
	all := map[Node]bool{}
	t := n.I.(*ssa.Call).Type()
	root := map[string]bool{}
	for _, l := range h.G.sliceRoots(VV{n.F, n.I.(*ssa.Call)}, map[okey]bool{}) {
		root[rootKey(h.G, l)+l.Path] = true
	}
	for b := range it.Loop.Body {
		for _, in := range b.Instrs {
			m := Node{F: n.F, I: in}
			if !h.G.alive(m) {
				continue
			}
			base, es, ok := h.appendElems(m)
			if !ok || !types.Identical(base.V.Type(), t) {
				continue
			}
			// the same list?
			same := m == n
			for _, l := range h.G.sliceRoots(VV{n.F, in.(*ssa.Call)}, map[okey]bool{}) {
				if root[rootKey(h.G, l)+l.Path] {
					same = true
				}
			}
			if !same {
				continue
			}
			if len(es) != 1 {
				return nil, "more than one element is appended at " + h.G.nodePos(m)
			}
			if x := enclosingIter(n.F, b); x == nil || x.If != it.If {
				return nil, "elements are appended in an inner loop at " + h.G.nodePos(m)
			}
			if !h.retained(m) {
				return nil, "the appended list is not kept at " + h.G.nodePos(m)
			}
			all[m] = true
			c.Stores = append(c.Stores, elemStore{"", es[0], m})
		}
	}
	if w := h.iterEvery(c.F, it, func(m Node) bool { return all[m] }, cut); w != "" {
		return nil, w
	}
	hd := Node{F: c.F, I: it.Loop.Header.Instrs[0]}
	for m := range all {
		for k := range h.G.Reach(h.G.After(m), func(x Node) bool { return x == hd }, cut) {
			if all[k] {
				return nil, "an element can be appended twice at " + h.G.nodePos(k)
			}
		}
	}
	return c, ""
}

// part: what the part of each element at path is (one anchor per way to fill it).
func (c *converted) part(h *Headless, path string) (as []Anchor, set bool) {
	for _, s := range c.Stores {
		switch {
		case strings.HasPrefix(path, s.Path) && isPathBreak(path[len(s.Path):]):
			as = append(as, h.anchorP(s.Val, path[len(s.Path):], 0))
			set = true
		case strings.HasPrefix(s.Path, path) && isPathBreak(s.Path[len(path):]):
			set = true
			as = append(as, Anchor{Kind: "val", F: s.Val.F, V: s.Val.V})
		}
	}
	return
}

// partVals: like part, as values with a remaining path.
func (c *converted) partVals(path string) (vs []VV, rest []string) {
	for _, s := range c.Stores {
		if strings.HasPrefix(path, s.Path) && isPathBreak(path[len(s.Path):]) {
			vs = append(vs, s.Val)
			rest = append(rest, path[len(s.Path):])
		}
	}
	return
}

// source: the element of the source list, at path.
func (c *converted) source(a Anchor, path string) bool {
	return a.Kind == "elem" && a.F == c.F && a.V == c.It.Index && sameVal(a.Coll, c.It.Coll) && a.Path == path
}

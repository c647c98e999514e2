package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// noCuts: no list whose elements satisfy pred is cut short or thinned out on its way.
func (h *Headless) noCuts(r *R, rule string, pred func(types.Type) bool) {
	lists := 0
	for _, n := range h.Nodes {
		if !isRepoPath(fnPkgPath(n.F.Fn)) && !strings.HasPrefix(fnPkgPath(h.W.real(n.F.Fn)), modPath) {
			continue
		}
		switch x := n.I.(type) {
		case *ssa.Slice:
			st, ok := x.X.Type().Underlying().(*types.Slice)
			if !ok || !pred(st.Elem()) {
				continue
			}
			lists++
			if x.Low == nil && x.Max == nil {
				if c, ok := x.High.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
					continue // emptied for reuse
				}
			}
			r.Ob(rule, "slice in "+h.where(n), !partial(x), h.G.nodePos(n), "only a part of the list of "+types.TypeString(st.Elem(), nil)+" is used")
		default:
			c := callOf(n)
			if c == nil {
				continue
			}
			p := calleePath(c)
			if !strings.HasPrefix(p, "slices.") || len(c.Args) == 0 {
				continue
			}
			st, ok := c.Args[0].Type().Underlying().(*types.Slice)
			if !ok || !pred(st.Elem()) {
				continue
			}
			lists++
			name := strings.TrimPrefix(p, "slices.")
			if i := strings.Index(name, "["); i >= 0 {
				name = name[:i]
			}
			bad := false
			switch name {
			case "Compact", "CompactFunc", "Delete", "DeleteFunc", "Replace", "Insert":
				bad = true
			}
			r.Ob(rule, "slices."+name+" in "+h.where(n), !bad, h.G.nodePos(n), "elements of the list are removed or exchanged")
		}
	}
	r.Info["slice operations on such lists"] = lists
}

func elemIs(names ...string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := deref(t).(*types.Named)
		if !ok {
			return false
		}
		for _, x := range names {
			if n.Obj().Name() == x {
				return true
			}
		}
		return false
	}
}

// structWith: a struct that has a field of one of the given named types.
func structWith(pred func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if pred(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
}

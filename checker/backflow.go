package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Backward flow of values over the whole of the repository's code, without regard to
// calling contexts: parameters come from all callers (also through closures and function
// values), results from all returns, variables from the stores that reach.
// ---------------------------------------------------------------------------

type Back struct {
	w       *World
	rec     *recur
	callers map[*ssa.Function][]ssa.CallInstruction
	fields  map[string][]*ssa.Store // stores to a field of a named struct type
	maps    []*ssa.MapUpdate
	outside map[*ssa.Function]bool // also handed to code outside of the repository
}

// BV is the part of a value under a path of struct fields (-1: an element, -2: the
// key of a map entry).
type BV struct {
	V    ssa.Value
	Path string // ".1.0"
}

// BLeaf is where the backward flow ends.
type BLeaf struct {
	BV
	Zero bool
	At   token.Pos
}

func newBack(w *World) *Back {
	b := &Back{w: w, rec: newRecur(w), callers: map[*ssa.Function][]ssa.CallInstruction{}, fields: map[string][]*ssa.Store{}, outside: map[*ssa.Function]bool{}}
	var dyn []ssa.CallInstruction
	have := map[[2]any]bool{}
	add := func(f *ssa.Function, c ssa.CallInstruction) bool {
		k := [2]any{f, c}
		if have[k] {
			return false
		}
		have[k] = true
		b.callers[f] = append(b.callers[f], c)
		return true
	}
	for _, f := range w.allFns {
		if !isRepoPath(fnPkgPath(f)) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					if g := c.StaticCallee(); g != nil {
						add(g, x)
						if !isRepoPath(fnPkgPath(g)) {
							for _, a := range c.Args {
								for _, h := range b.fnVals(a, 0, map[ssa.Value]bool{}) {
									b.outside[h] = true
								}
							}
						}
					} else if _, isB := c.Value.(*ssa.Builtin); !isB && !c.IsInvoke() {
						dyn = append(dyn, x)
					} else if c.IsInvoke() {
						for _, a := range c.Args {
							for _, h := range b.fnVals(a, 0, map[ssa.Value]bool{}) {
								b.outside[h] = true
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(deref(fa.X.Type()), fa.Field)
						b.fields[k] = append(b.fields[k], x)
					}
				case *ssa.MapUpdate:
					b.maps = append(b.maps, x)
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, c := range dyn {
			for _, g := range b.fnVals(c.Common().Value, 0, map[ssa.Value]bool{}) {
				again = add(g, c) || again
			}
		}
	}
	return b
}

func fieldKey(t types.Type, i int) string { return fmt.Sprint(types.TypeString(t, nil), "#", i) }

// fnVals: the functions that a value can be.
func (b *Back) fnVals(v ssa.Value, d int, seen map[ssa.Value]bool) (r []*ssa.Function) {
	if d > 8 || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		return []*ssa.Function{f}
	case *ssa.Phi:
		for _, e := range x.Edges {
			r = append(r, b.fnVals(e, d+1, seen)...)
		}
	case *ssa.ChangeType:
		return b.fnVals(x.X, d+1, seen)
	case *ssa.Call:
		if isFuncT(x.Type()) {
			if f := x.Call.StaticCallee(); f != nil {
				for _, bl := range f.Blocks {
					if ret, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
						r = append(r, b.fnVals(ret.Results[0], d+1, seen)...)
					}
				}
			}
		}
	case *ssa.Parameter:
		if !isFuncT(x.Type()) {
			return nil
		}
		for _, a := range b.argsFor(x) {
			r = append(r, b.fnVals(a, d+1, seen)...)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL || !isFuncT(x.Type()) {
			return nil
		}
		switch y := x.X.(type) {
		case *ssa.FreeVar:
			for _, q := range b.rec.bindings(y) {
				r = append(r, b.cellVals(q, d, seen)...)
			}
		case *ssa.Alloc:
			return b.cellVals(y, d, seen)
		case *ssa.FieldAddr:
			for _, st := range b.fields[fieldKey(deref(y.X.Type()), y.Field)] {
				r = append(r, b.fnVals(st.Val, d+1, seen)...)
			}
		default:
			return b.rec.cellFns(v, 0)
		}
	case *ssa.FreeVar:
		for _, q := range b.rec.bindings(x) {
			r = append(r, b.fnVals(q, d+1, seen)...)
		}
	}
	return r
}

func (b *Back) cellVals(cell ssa.Value, d int, seen map[ssa.Value]bool) (r []*ssa.Function) {
	for _, st := range b.cellStores(cell, map[ssa.Value]bool{}) {
		r = append(r, b.fnVals(st.Val, d+1, seen)...)
	}
	return r
}

// cellStores: the stores to a variable, also from closures that capture it.
func (b *Back) cellStores(cell ssa.Value, seen map[ssa.Value]bool) (r []*ssa.Store) {
	if seen[cell] {
		return nil
	}
	seen[cell] = true
	if fv, ok := cell.(*ssa.FreeVar); ok {
		for _, q := range b.rec.bindings(fv) {
			r = append(r, b.cellStores(q, seen)...)
		}
	}
	if cell.Referrers() == nil {
		return r
	}
	for _, u := range *cell.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if y.Addr == cell {
				r = append(r, y)
			}
		case *ssa.MakeClosure:
			g := y.Fn.(*ssa.Function)
			for i, q := range y.Bindings {
				if q == cell {
					r = append(r, b.cellStores(g.FreeVars[i], seen)...)
				}
			}
		}
	}
	return r
}

// argsFor: what callers pass for the parameter.
func (b *Back) argsFor(p *ssa.Parameter) (r []ssa.Value) {
	f := p.Parent()
	for i, q := range f.Params {
		if q != p {
			continue
		}
		for _, c := range b.callers[f] {
			if i < len(c.Common().Args) {
				r = append(r, c.Common().Args[i])
			}
		}
	}
	return r
}

// addrOf: the variable that an address belongs to, and the path within it.
func addrBase(v ssa.Value) (ssa.Value, string) {
	p := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			p = fmt.Sprintf(".%d", x.Field) + p
			v = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				k := "*"
				if n, ok := constInt(x.Index); ok {
					k = fmt.Sprint(n)
				}
				p = "[" + k + "]" + p
				v = x.X
				continue
			}
		}
		return v, p
	}
}

// captured: the variable is used by anything but loads and stores of this function.
func captured(al *ssa.Alloc) bool {
	var chk func(v ssa.Value) bool
	chk = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr != v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if chk(y) {
					return true
				}
			case *ssa.IndexAddr:
				if chk(y) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return chk(al)
}

// reaching: the stores that a read of the path of the variable at instr can see, and whether
// none may have been made.
func reaching(al ssa.Value, path string, at ssa.Instruction) (r []*ssa.Store, zero bool) {
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	idx := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return 0
	}
	st := []pos{{at.Block(), idx(at)}}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		done := false
		for i := p.i - 1; i >= 0 && !done; i-- {
			in := p.b.Instrs[i]
			if s, ok := in.(*ssa.Store); ok {
				if base, q := addrBase(s.Addr); base == al && under(q, path) {
					r = append(r, s)
					done = true
				}
			}
			if in == al.(ssa.Instruction) {
				zero = true
				done = true
			}
		}
		if done {
			continue
		}
		if len(p.b.Preds) == 0 {
			zero = true
		}
		for _, q := range p.b.Preds {
			if !seen[q] {
				seen[q] = true
				st = append(st, pos{q, len(q.Instrs)})
			}
		}
	}
	return r, zero
}

// under: the part at path lies in the one at q.
func under(q, path string) bool {
	return strings.HasPrefix(path, q) && (len(q) == len(path) || path[len(q)] == '.' || path[len(q)] == '[')
}

// Leaves follows v (its part under path) back to where it comes from. stop tells which
// values are not followed any further.
func (b *Back) Leaves(v ssa.Value, path string, stop func(ssa.Value) bool) []BLeaf {
	var out []BLeaf
	seen := map[BV]bool{}
	var walk func(v ssa.Value, path string, at token.Pos)
	leaf := func(v ssa.Value, path string, zero bool, at token.Pos) {
		if v != nil && v.Pos().IsValid() {
			at = v.Pos()
		}
		out = append(out, BLeaf{BV{v, path}, zero, at})
	}
	walk = func(v ssa.Value, path string, at token.Pos) {
		if seen[BV{v, path}] {
			return
		}
		seen[BV{v, path}] = true
		if v.Pos().IsValid() {
			at = v.Pos()
		}
		if path == "" && stop != nil && stop(v) {
			leaf(v, path, false, at)
			return
		}
		if strings.HasPrefix(path, "[") && b.elements(v, path, func(y ssa.Value, rest string) { walk(y, rest, at) }) {
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			leaf(v, path, x.Value == nil, at)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, path, at)
			}
		case *ssa.ChangeType:
			walk(x.X, path, at)
		case *ssa.MakeInterface:
			walk(x.X, path, at)
		case *ssa.TypeAssert:
			walk(x.X, path, at)
		case *ssa.Field:
			walk(x.X, fmt.Sprintf(".%d", x.Field)+path, at)
		case *ssa.Parameter:
			as := b.argsFor(x)
			if len(as) == 0 || b.outside[x.Parent()] {
				leaf(v, path, false, at)
			}
			for _, a := range as {
				walk(a, path, at)
			}
		case *ssa.FreeVar:
			bs := b.rec.bindings(x)
			if len(bs) == 0 {
				leaf(v, path, false, at)
			}
			for _, q := range bs {
				walk(q, path, at)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if !b.results(c, x.Index, func(r ssa.Value) { walk(r, path, at) }) {
					leaf(v, path, false, at)
				}
				return
			}
			leaf(v, path, false, at)
		case *ssa.Call:
			if !b.results(x, 0, func(r ssa.Value) { walk(r, path, at) }) {
				leaf(v, path, false, at)
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				leaf(v, path, false, at)
				return
			}
			base, q := addrBase(x.X)
			switch y := base.(type) {
			case *ssa.Alloc:
				full := q + path
				if !captured(y) {
					sts, zero := reaching(y, full, x)
					for _, s := range sts {
						_, sq := addrBase(s.Addr)
						b.narrowed(s.Val, s.Block(), func(y ssa.Value) { walk(y, full[len(sq):], at) })
					}
					if zero {
						leaf(nil, path, true, x.Pos())
					}
					return
				}
				b.cellParts(y, full, func(val ssa.Value, rest string) { walk(val, rest, at) }, func() { leaf(nil, path, true, x.Pos()) })
				return
			case *ssa.FreeVar:
				found := false
				for _, cell := range b.rec.bindings(y) {
					found = true
					if al, ok := cell.(*ssa.Alloc); ok {
						b.cellParts(al, q+path, func(val ssa.Value, rest string) { walk(val, rest, at) }, func() { leaf(nil, path, true, x.Pos()) })
					} else if fv, ok := cell.(*ssa.FreeVar); ok {
						for _, st := range b.cellStores(fv, map[ssa.Value]bool{}) {
							_, sq := addrBase(st.Addr)
							if under(sq, q+path) {
								walk(st.Val, (q + path)[len(sq):], at)
							}
						}
					} else {
						leaf(v, path, false, at)
					}
				}
				if !found {
					leaf(v, path, false, at)
				}
				return
			case *ssa.IndexAddr:
				// an element of a list
				walk(y.X, "[*]"+q+path, at)
				return
			case *ssa.Global:
				n := 0
				for _, f := range b.w.allFns {
					if f.Pkg != y.Pkg || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
						continue
					}
					for _, bl := range f.Blocks {
						for _, in := range bl.Instrs {
							if s, ok := in.(*ssa.Store); ok {
								if sb, sq := addrBase(s.Addr); sb == ssa.Value(y) && under(sq, q+path) {
									n++
									walk(s.Val, (q + path)[len(sq):], at)
								}
							}
						}
					}
				}
				if n == 0 {
					leaf(v, path, false, at)
				}
				return
			}
			// an object on the heap: whatever is stored to this field of its type anywhere
			if fa, ok := x.X.(*ssa.FieldAddr); ok && isRepoType(deref(fa.X.Type())) {
				sts := b.fields[fieldKey(deref(fa.X.Type()), fa.Field)]
				for _, s := range sts {
					walk(s.Val, path, at)
				}
				if len(sts) == 0 {
					leaf(nil, path, true, x.Pos())
				}
				return
			}
			leaf(v, path, false, at)
		default:
			leaf(v, path, false, at)
		}
	}
	walk(v, path, v.Pos())
	return out
}

func isRepoType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) || n == nil
}

// cellParts: what is stored to (the part of) a variable that closures share.
func (b *Back) cellParts(al *ssa.Alloc, path string, got func(ssa.Value, string), none func()) {
	n := 0
	var chk func(v ssa.Value, q string, seen map[ssa.Value]bool)
	chk = func(v ssa.Value, q string, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr == v && under(q, path) {
					n++
					got(y.Val, path[len(q):])
				}
			case *ssa.FieldAddr:
				chk(y, fmt.Sprintf("%s.%d", q, y.Field), seen)
			case *ssa.IndexAddr:
				chk(y, q+"[*]", seen)
			case *ssa.MakeClosure:
				g := y.Fn.(*ssa.Function)
				for i, x := range y.Bindings {
					if x == v {
						chk(g.FreeVars[i], q, seen)
					}
				}
			}
		}
	}
	chk(al, "", map[ssa.Value]bool{})
	if n == 0 {
		none()
	}
}

// elements follows the elements of a list one step back. false: v is no list-making value.
func (b *Back) elements(v ssa.Value, path string, got func(ssa.Value, string)) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		for _, u := range *x.Referrers() {
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, w := range *ia.Referrers() {
					if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
						got(s.Val, path[3:])
					}
				}
			}
		}
		return true
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			b.cellParts(al, path, got, func() {})
			return true
		}
		got(x.X, path)
		return true
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			got(x.Call.Args[0], path)
			got(x.Call.Args[1], path)
			return true
		}
	}
	return false
}

// narrowed: the alternatives of v that are left in the block, after the tests for
// constants on the way there.
func (b *Back) narrowed(v ssa.Value, at *ssa.BasicBlock, got func(ssa.Value)) {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		got(v)
		return
	}
	gone := map[string]bool{}
	for _, bl := range at.Parent().Blocks {
		iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
		if !ok || !bl.Dominates(at) || bl == at {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		c, isC := bo.Y.(*ssa.Const)
		o := bo.X
		if !isC {
			c, isC = bo.X.(*ssa.Const)
			o = bo.Y
		}
		if !isC || c.Value == nil || o != v {
			continue
		}
		other := 1 // the branch on which they differ
		if bo.Op == token.NEQ {
			other = 0
		}
		if !blockReach(bl.Succs[1-other], bl)[at] {
			gone[c.Value.ExactString()] = true
		}
	}
	if len(gone) == 0 {
		got(v)
		return
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
			return
		case *ssa.Const:
			if x.Value != nil && gone[x.Value.ExactString()] {
				return
			}
		}
		got(v)
	}
	rec(phi)
}

// results: what the repository's functions that the call can reach return at index i.
func (b *Back) results(c *ssa.Call, i int, got func(ssa.Value)) bool {
	var fs []*ssa.Function
	if f := c.Call.StaticCallee(); f != nil {
		fs = []*ssa.Function{f}
	} else if !c.Call.IsInvoke() {
		if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
			fs = b.fnVals(c.Call.Value, 0, map[ssa.Value]bool{})
		}
	}
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if len(f.Blocks) == 0 || !isRepoPath(fnPkgPath(f)) {
			return false
		}
	}
	for _, f := range fs {
		for _, bl := range f.Blocks {
			if ret, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				got(ret.Results[i])
			}
		}
	}
	return true
}

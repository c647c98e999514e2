package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Loops: natural loops of a function, and the recognition of loops that visit
// every element of a collection.
// ---------------------------------------------------------------------------

type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool // including the header
}

func loopsOf(f *ssa.Function) []*Loop {
	by := map[*ssa.BasicBlock]*Loop{}
	var order []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &Loop{Fn: f, Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					order = append(order, s)
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.Body[x] {
						continue
					}
					l.Body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	var r []*Loop
	for _, h := range order {
		r = append(r, by[h])
	}
	return r
}

// Iter is a loop that runs its body once for every element of Coll, as long as
// the body does not leave the loop.
type Iter struct {
	Loop   *Loop
	Kind   string    // "slice", "map", "chan"
	Coll   ssa.Value // the collection (for len(x)-style loops: x)
	If     *ssa.If   // the loop test
	Enter  int       // successor index of the body
	Index  ssa.Value // slice loops: the index value inside the body
	Source ssa.Value // map: the Next value; chan: the receive
}

func (it *Iter) BodyEntry() *ssa.BasicBlock { return it.If.Block().Succs[it.Enter] }
func (it *Iter) Exit() *ssa.BasicBlock      { return it.If.Block().Succs[1-it.Enter] }

func lenArg(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// sameVal reports structural equality of pure expressions over the same base values.
func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		if !ok {
			return false
		}
		if x.Value == nil || y.Value == nil {
			return x.Value == nil && y.Value == nil
		}
		return x.Value.ExactString() == y.Value.ExactString()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op != token.ARROW && sameVal(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	case *ssa.ChangeType:
		y, ok := b.(*ssa.ChangeType)
		return ok && sameVal(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && bx.Name() == by.Name() && bx.Name() == "len" && sameVal(x.Call.Args[0], y.Call.Args[0])
	}
	return false
}

// loadCell: values loaded from the same local cell count as the same collection in a
// loop test when the cell is not stored to inside the loop. (Used for variables
// captured by closures, which live in cells.)

func incOne(v ssa.Value, base ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	if n, ok := constInt(b.Y); ok && n == 1 && b.X == base {
		return true
	}
	if n, ok := constInt(b.X); ok && n == 1 && b.Y == base {
		return true
	}
	return false
}

func decOne(v ssa.Value, base ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.X != base {
		return false
	}
	n, ok := constInt(b.Y)
	return ok && ((b.Op == token.SUB && n == 1) || (b.Op == token.ADD && n == -1))
}

// iterOf recognises a full iteration. nil: not recognised.
func iterOf(l *Loop) *Iter {
	// the loop test: the If that leaves the loop, in the header or in a block
	// reached from it without branching
	b := l.Header
	var ifi *ssa.If
	for i := 0; i < 4; i++ {
		last := b.Instrs[len(b.Instrs)-1]
		if x, ok := last.(*ssa.If); ok {
			ifi = x
			break
		}
		if _, ok := last.(*ssa.Jump); ok && l.Body[b.Succs[0]] && len(b.Succs[0].Preds) == 1 {
			b = b.Succs[0]
			continue
		}
		return nil
	}
	if ifi == nil {
		return nil
	}
	s := ifi.Block().Succs
	enter := -1
	if l.Body[s[0]] && !l.Body[s[1]] {
		enter = 0
	} else if l.Body[s[1]] && !l.Body[s[0]] {
		enter = 1
	} else {
		return nil
	}
	it := &Iter{Loop: l, If: ifi, Enter: enter}
	cond := ifi.Cond
	neg := enter == 1 // body entered when the condition is false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		break
	}
	if ex, ok := cond.(*ssa.Extract); ok && !neg {
		switch t := ex.Tuple.(type) {
		case *ssa.Next:
			if ex.Index == 0 && l.Body[t.Block()] {
				if rg, ok := t.Iter.(*ssa.Range); ok {
					if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
						it.Kind, it.Coll, it.Source = "map", rg.X, t
						return it
					}
				}
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW && t.CommaOk && ex.Index == 1 && l.Body[t.Block()] {
				it.Kind, it.Coll, it.Source = "chan", t.X, t
				return it
			}
		}
		return nil
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	x, y := bo.X, bo.Y
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}
	negm := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.NEQ: token.EQL, token.EQL: token.NEQ}
	if neg {
		op = negm[op]
	}
	idx, bound := x, y
	if lenArg(x) != nil || isConst(x) {
		idx, bound, op = y, x, flip[op]
	}
	// index phi in the loop header
	var phi *ssa.Phi
	rotated := false // range loops test idx+1
	if p, ok := idx.(*ssa.Phi); ok {
		phi = p
	} else if a, ok := idx.(*ssa.BinOp); ok && a.Op == token.ADD {
		if p, ok := a.X.(*ssa.Phi); ok && incOne(a, p) {
			phi, rotated = p, true
		}
	}
	if phi == nil || phi.Block() != l.Header {
		return nil
	}
	var inits, steps []ssa.Value
	for i, e := range phi.Edges {
		if l.Body[l.Header.Preds[i]] {
			steps = append(steps, e)
		} else {
			inits = append(inits, e)
		}
	}
	if len(inits) == 0 || len(steps) == 0 {
		return nil
	}
	if op == token.LSS || op == token.NEQ {
		coll := lenArg(bound)
		if coll == nil {
			// range over an array, or range n with n := len(x) kept in a register: bound is that call
			return nil
		}
		want := int64(0)
		if rotated {
			want = -1
		}
		for _, i := range inits {
			if n, ok := constInt(i); !ok || n != want {
				return nil
			}
		}
		for _, s := range steps {
			if rotated {
				if s != idx {
					return nil
				}
			} else if !incOne(s, phi) {
				return nil
			}
		}
		it.Kind, it.Coll, it.Index = "slice", coll, idx
		return it
	}
	if op == token.GEQ || op == token.GTR {
		n, ok := constInt(bound)
		if !ok || !(op == token.GEQ && n == 0 || op == token.GTR && n == -1) || rotated {
			return nil
		}
		var coll ssa.Value
		for _, i := range inits {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.SUB {
				return nil
			}
			if k, ok := constInt(b.Y); !ok || k != 1 {
				return nil
			}
			c := lenArg(b.X)
			if c == nil || (coll != nil && !sameVal(coll, c)) {
				return nil
			}
			coll = c
		}
		for _, s := range steps {
			if !decOne(s, phi) {
				return nil
			}
		}
		it.Kind, it.Coll, it.Index = "slice", coll, idx
		return it
	}
	return nil
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// itersIn returns the recognised full iterations of a function.
func itersIn(f *ssa.Function) []*Iter {
	var r []*Iter
	for _, l := range loopsOf(f) {
		if it := iterOf(l); it != nil {
			r = append(r, it)
		}
	}
	return r
}

// ElemVals returns the values of the loop body that hold the current element:
// loads of Coll[Index], the map key/value extracts, the received value.
func (it *Iter) ElemVals() (elems, keys []ssa.Value) {
	for b := range it.Loop.Body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && it.Kind == "slice" {
					if ia, ok := x.X.(*ssa.IndexAddr); ok && ia.Index == it.Index && sameVal(ia.X, it.Coll) {
						elems = append(elems, x)
					}
				}
			case *ssa.IndexAddr:
				if it.Kind == "slice" && x.Index == it.Index && sameVal(x.X, it.Coll) {
					keys = append(keys, x) // the address of the element
				}
			case *ssa.Extract:
				if x.Tuple == it.Source {
					if it.Kind == "map" && x.Index == 2 || it.Kind == "chan" && x.Index == 0 {
						elems = append(elems, x)
					}
					if it.Kind == "map" && x.Index == 1 {
						keys = append(keys, x)
					}
				}
			}
		}
	}
	return
}

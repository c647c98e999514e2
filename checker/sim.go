package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Property simulation over the supergraph: a dataflow analysis that merges
// paths unless they differ in the abstract state (typestate of the client plus
// the nil-ness / truth of error and boolean values, and small constants). It
// makes correlated branches ("err != nil" tested in the caller of the function
// that produced it) precise without executing anything.
// ---------------------------------------------------------------------------

type factKey struct {
	v   VV
	idx int // tuple component, or -1
}

type Fact struct {
	K string // "nil", "nonnil", "true", "false", "c:<const>"
}

type SState struct {
	facts map[factKey]string
	TS    string // client typestate
}

func (s *SState) clone() *SState {
	n := &SState{facts: make(map[factKey]string, len(s.facts)), TS: s.TS}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

type Sim struct {
	G *Graph
	// Step is called when a node is executed; it may change st.TS. Returning false stops the path.
	Step func(n Node, st *SState) bool
	// Edge may prune an edge (return false) or change the state.
	Edge func(from Node, e Edge, st *SState) bool
	// Branch may prune a branch, seeing (and changing) the state before it is taken.
	Branch func(from Node, e Edge, st *SState) bool
	// Fork returns the states after an opaque call (nil: one state, results unknown).
	Fork func(n Node, st *SState) []*SState
	// Track says whether facts about a value of this type are kept (nil: errors and bools).
	Track func(t types.Type) bool
	// Cut edges into frames
	SkipThread bool // do not follow goroutines
	Max        int

	seen    map[string]bool
	ids     map[VV]int
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	Visited int
	Trunc   bool
}

func isErrorT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func trackDefault(t types.Type) bool { return isErrorT(t) || isBoolT(t) }

func (s *Sim) tracked(t types.Type) bool {
	if s.Track != nil {
		return s.Track(t)
	}
	return trackDefault(t)
}

func (s *Sim) key(n Node, st *SState) string {
	var ks []string
	for k, v := range st.facts {
		ks = append(ks, fmt.Sprintf("%d.%d=%s", s.id(k.v), k.idx, v))
	}
	sort.Strings(ks)
	at := 0
	if n.At != nil {
		at = s.G.instrIdx[n.At]*10000 + n.At.Block().Index + 1
	}
	return fmt.Sprintf("%d/%d/%d/%d|%s|%s", n.F.ID, n.I.Block().Index, s.G.instrIdx[n.I], at, st.TS, strings.Join(ks, ","))
}

func (s *Sim) id(v VV) int {
	i, ok := s.ids[v]
	if !ok {
		i = len(s.ids) + 1
		s.ids[v] = i
	}
	return i
}

func constFact(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok {
		return "", false
	}
	if c.Value == nil {
		return "nil", true
	}
	if c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return "true", true
		}
		return "false", true
	}
	return "c:" + c.Value.ExactString(), true
}

// Fact looks up what is known about a value.
func (s *Sim) Fact(st *SState, f *Frame, v ssa.Value) string {
	if c, ok := constFact(v); ok {
		return c
	}
	if k, ok := st.facts[factKey{VV{f, v}, -1}]; ok {
		return k
	}
	switch x := v.(type) {
	case *ssa.Global:
		return "nonnil"
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr:
		return "nonnil"
	case *ssa.MakeInterface:
		return "nonnil"
	case *ssa.ChangeInterface:
		return s.Fact(st, f, x.X)
	case *ssa.ChangeType:
		return s.Fact(st, f, x.X)
	case *ssa.Extract:
		if k, ok := st.facts[factKey{VV{f, x.Tuple}, x.Index}]; ok {
			return k
		}
	case *ssa.Call:
		switch calleePath(&x.Call) {
		case "errors.New", "fmt.Errorf":
			return "nonnil"
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch s.Fact(st, f, x.X) {
			case "true":
				return "false"
			case "false":
				return "true"
			}
		}
		if x.Op == token.MUL {
			if a, ok := s.cell(f, x.X); ok {
				if k, ok := st.facts[factKey{a, -2}]; ok {
					return k
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := s.Fact(st, f, x.X), s.Fact(st, f, x.Y)
			eq := ""
			if a == "nil" && b == "nil" {
				eq = "true"
			} else if a == "nil" && b == "nonnil" || a == "nonnil" && b == "nil" {
				eq = "false"
			} else if strings.HasPrefix(a, "c:") && strings.HasPrefix(b, "c:") {
				if a == b {
					eq = "true"
				} else {
					eq = "false"
				}
			} else if (a == "true" || a == "false") && (b == "true" || b == "false") {
				eq = fmt.Sprint(a == b)
			}
			if eq != "" {
				if x.Op == token.NEQ {
					if eq == "true" {
						return "false"
					}
					return "true"
				}
				return eq
			}
		}
	case *ssa.Parameter:
		if f.Args != nil && f.Kind == kCall {
			for i, p := range f.Fn.Params {
				if p == x && i < len(f.Args) && f.Args[i].V != nil {
					return s.Fact(st, f.Args[i].F, f.Args[i].V)
				}
			}
		}
	}
	return ""
}

// cell resolves a pointer to a unique local variable cell.
func (s *Sim) cell(f *Frame, v ssa.Value) (VV, bool) {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return VV{f, x}, true
		case *ssa.FreeVar:
			ok := false
			for j, fv := range f.Fn.FreeVars {
				if fv == x && j < len(f.Bind) {
					f, v = f.Bind[j].F, f.Bind[j].V
					ok = true
					break
				}
			}
			if !ok {
				return VV{}, false
			}
		case *ssa.Parameter:
			ok := false
			for j, p := range f.Fn.Params {
				if p == x && j < len(f.Args) && f.Args[j].V != nil {
					f, v = f.Args[j].F, f.Args[j].V
					ok = true
					break
				}
			}
			if !ok {
				return VV{}, false
			}
		default:
			return VV{}, false
		}
	}
	return VV{}, false
}

func (s *Sim) set(st *SState, k factKey, v string) {
	if v == "" {
		delete(st.facts, k)
	} else {
		st.facts[k] = v
	}
}

// refine records that a condition took a branch.
func (s *Sim) refine(st *SState, f *Frame, c ssa.Value, val bool) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s.refine(st, f, x.X, !val)
			return
		}
		if x.Op == token.MUL && s.tracked(x.Type()) {
			if a, ok := s.cell(f, x.X); ok {
				s.set(st, factKey{a, -2}, fmt.Sprint(val))
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == val
			set := func(v ssa.Value, other string) {
				if other == "nil" && s.tracked(v.Type()) {
					if eq {
						s.learn(st, f, v, "nil")
					} else {
						s.learn(st, f, v, "nonnil")
					}
				}
				if strings.HasPrefix(other, "c:") && eq && s.tracked(v.Type()) {
					s.learn(st, f, v, other)
				}
			}
			set(x.X, s.Fact(st, f, x.Y))
			set(x.Y, s.Fact(st, f, x.X))
		}
	}
	if isBoolT(c.Type()) && s.tracked(c.Type()) {
		s.learn(st, f, c, fmt.Sprint(val))
	}
}

func (s *Sim) learn(st *SState, f *Frame, v ssa.Value, k string) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	s.set(st, factKey{VV{f, v}, -1}, k)
	switch x := v.(type) {
	case *ssa.Extract:
		s.set(st, factKey{VV{f, x.Tuple}, x.Index}, k)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := s.cell(f, x.X); ok {
				s.set(st, factKey{a, -2}, k)
			}
		}
	case *ssa.Parameter:
		if f.Args != nil && f.Kind == kCall {
			for i, p := range f.Fn.Params {
				if p == x && i < len(f.Args) && f.Args[i].V != nil {
					s.learn(st, f.Args[i].F, f.Args[i].V, k)
				}
			}
		}
	case *ssa.ChangeInterface:
		s.learn(st, f, x.X, k)
	}
}

func (s *Sim) liveIn(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	if s.live == nil {
		s.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	m := s.live[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, bb := range fn.Blocks {
			m[bb] = map[ssa.Value]bool{}
		}
		for ch := true; ch; {
			ch = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				bb := fn.Blocks[i]
				cur := map[ssa.Value]bool{}
				for _, sc := range bb.Succs {
					for v := range m[sc] {
						cur[v] = true
					}
					for _, in := range sc.Instrs {
						if p, ok := in.(*ssa.Phi); ok {
							for k, pr := range sc.Preds {
								if pr == bb {
									cur[p.Edges[k]] = true
								}
							}
							delete(cur, p)
						}
					}
				}
				for j := len(bb.Instrs) - 1; j >= 0; j-- {
					in := bb.Instrs[j]
					if v, ok := in.(ssa.Value); ok {
						delete(cur, v)
					}
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op != nil {
							cur[*op] = true
						}
					}
				}
				for v := range cur {
					if !m[bb][v] {
						m[bb][v] = true
						ch = true
					}
				}
			}
		}
		s.live[fn] = m
	}
	return m[b]
}

// prune drops facts of frame f about values dead at the entry of block b.
func (s *Sim) prune(st *SState, f *Frame, b *ssa.BasicBlock) {
	lv := s.liveIn(f.Fn, b)
	for k := range st.facts {
		if k.v.F == f && k.idx != -2 && !lv[k.v.V] {
			// tuple facts stay while an extract may still use them
			if k.idx >= 0 {
				if lv[k.v.V] {
					continue
				}
			}
			delete(st.facts, k)
		}
	}
}

func (s *Sim) dropFrame(st *SState, f *Frame) {
	for k := range st.facts {
		if k.v.F == f {
			delete(st.facts, k)
		}
	}
}

type simItem struct {
	n  Node
	st *SState
}

// Run explores from the given nodes with the initial typestate and facts.
func (s *Sim) Run(from []Node, init *SState) {
	if init.facts == nil {
		init.facts = map[factKey]string{}
	}
	s.seen = map[string]bool{}
	s.ids = map[VV]int{}
	if s.Max == 0 {
		s.Max = 400000
	}
	var work []simItem
	push := func(n Node, st *SState) {
		k := s.key(n, st)
		if !s.seen[k] {
			s.seen[k] = true
			work = append(work, simItem{n, st})
		}
	}
	for _, n := range from {
		push(n, init.clone())
	}
	for len(work) > 0 {
		if len(s.seen) > s.Max {
			s.Trunc = true
			return
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n, st := it.n, it.st
		s.Visited++
		if s.Step != nil && !s.Step(n, st) {
			continue
		}
		// effects on facts
		switch x := n.I.(type) {
		case *ssa.Store:
			if s.tracked(x.Val.Type()) {
				if a, ok := s.cell(n.F, x.Addr); ok {
					s.set(st, factKey{a, -2}, s.Fact(st, n.F, x.Val))
				}
			}
		case *ssa.Extract:
			if s.tracked(x.Type()) {
				if k, ok := st.facts[factKey{VV{n.F, x.Tuple}, x.Index}]; ok {
					s.set(st, factKey{VV{n.F, x}, -1}, k)
				} else {
					delete(st.facts, factKey{VV{n.F, x}, -1})
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && s.tracked(x.Type()) {
				// freeze the loaded value now: the cell may change later
				delete(st.facts, factKey{VV{n.F, x}, -1})
				if a, ok := s.cell(n.F, x.X); ok {
					if k, ok := st.facts[factKey{a, -2}]; ok {
						s.set(st, factKey{VV{n.F, x}, -1}, k)
					}
				}
			} else if x.Op == token.NOT && s.tracked(x.Type()) {
				delete(st.facts, factKey{VV{n.F, x}, -1})
				s.set(st, factKey{VV{n.F, x}, -1}, s.Fact(st, n.F, x))
			}
		case *ssa.BinOp:
			if s.tracked(x.Type()) {
				delete(st.facts, factKey{VV{n.F, x}, -1})
				s.set(st, factKey{VV{n.F, x}, -1}, s.Fact(st, n.F, x))
			}
		}
		var forced string
		if x, ok := n.I.(*ssa.If); ok {
			forced = s.Fact(st, n.F, x.Cond)
		}
		for _, e := range s.G.Succ(n) {
			if s.SkipThread && e.To.F != n.F && e.To.F.Thread != n.F.Thread && e.To.F.Parent == n.F {
				continue
			}
			ns := st.clone()
			if x, ok := n.I.(*ssa.If); ok {
				if forced == "true" && e.Branch == 0 || forced == "false" && e.Branch == 1 {
					continue
				}
				if s.Branch != nil && !s.Branch(n, e, ns) {
					continue
				}
				s.refine(ns, n.F, x.Cond, e.Branch == 1)
			}
			if ret, ok := n.I.(*ssa.Return); ok && n.F.Parent != nil && e.To.F != n.F {
				// results into the caller
				if call, ok := n.F.Site.(*ssa.Call); ok && n.F.Kind == kCall {
					for i, rv := range ret.Results {
						if !s.tracked(rv.Type()) {
							continue
						}
						k := factKey{VV{n.F.Parent, call}, i}
						if len(ret.Results) == 1 {
							k.idx = -1
						}
						s.set(ns, k, s.Fact(st, n.F, rv))
					}
				}
				s.dropFrame(ns, n.F)
			}
			if e.To.F == n.F && e.To.I.Block() != n.I.Block() {
				// block transition: phis
				to := e.To.I.Block()
				pi := -1
				for i, p := range to.Preds {
					if p == n.I.Block() {
						pi = i
					}
				}
				var upd []struct {
					k factKey
					v string
				}
				for _, in := range to.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && s.tracked(p.Type()) {
						upd = append(upd, struct {
							k factKey
							v string
						}{factKey{VV{n.F, p}, -1}, s.Fact(ns, n.F, p.Edges[pi])})
					}
				}
				for _, u := range upd {
					s.set(ns, u.k, u.v)
				}
				s.prune(ns, n.F, to)
				// keep the phi facts just set
				for _, u := range upd {
					s.set(ns, u.k, u.v)
				}
			}
			if call, ok := n.I.(*ssa.Call); ok && e.To.F == n.F {
				_ = call // opaque call: results unknown
				for k := range ns.facts {
					if k.v.F == n.F && k.v.V == ssa.Value(call) {
						delete(ns.facts, k)
					}
				}
			}
			if s.Edge != nil && !s.Edge(n, e, ns) {
				continue
			}
			if s.Fork != nil && callOf(n) != nil && e.To.F == n.F && s.G.Opaque(n) {
				if vs := s.Fork(n, ns); vs != nil {
					for _, v := range vs {
						push(e.To, v)
					}
					continue
				}
			}
			push(e.To, ns)
		}
	}
}

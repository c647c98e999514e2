package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Fixes and suggestions are produced exactly when requested",
		"Supergraph of headless mode. The option cells are found from the flag definitions. Guard rule: after removing every branch edge that is only taken when the fix (suggestion) option is on, no call of a rule's fix (suggestion) callback is reachable, and it is reachable with them. Who-may-write rule: only the linter package sets the fix and suggestion fields of a diagnostic, from the callback's result. Completeness rule: with the option on, each report function calls its callback and passes the result on, the frame of a rule diagnostic gets the fixes and suggestions, and each conversion loop covers every element.",
		checkC04)
}

// flagCells: memory cells set by the flag definition with the given name.
func (h *Headless) flagCells(name string) map[Origin]bool {
	res := map[Origin]bool{}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) {
			continue
		}
		cp := calleePath(c)
		if !strings.HasPrefix(cp, "flag.") {
			continue
		}
		for i, a := range c.Args {
			s, ok := constStr(a)
			if !ok || s != name {
				continue
			}
			if strings.HasSuffix(cp, "Var") && i > 0 {
				for _, l := range h.G.addr(VV{n.F, c.Args[i-1]}, map[okey]bool{}) {
					res[Origin{l.Root.F, l.Root.V, "*" + l.Path}] = true
				}
			} else if call, ok := n.I.(*ssa.Call); ok {
				res[Origin{n.F, call, "*"}] = true
			}
			break
		}
	}
	return res
}

// fromCells: every origin of v is one of the cells (zero constants aside).
func (h *Headless) fromCells(v VV, cells map[Origin]bool) bool {
	hit := false
	for _, o := range h.G.Origins(v) {
		if cells[o] {
			hit = true
			continue
		}
		return false
	}
	return hit
}

// condFrom decides which branch of a condition is only taken when the cell is on
// (1 = true branch) or off (0 = false branch, polarity inverted).
func (h *Headless) condFrom(f *Frame, c ssa.Value, cells map[Origin]bool) (polarity bool, ok bool) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			p, ok := h.condFrom(f, x.X, cells)
			return !p, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if b, isB := constBool(p[1]); isB {
					q, ok := h.condFrom(f, p[0], cells)
					return q == (b == (x.Op == token.EQL)), ok
				}
			}
		}
	}
	if h.fromCells(VV{f, c}, cells) {
		return true, true
	}
	return false, false
}

// onlyWhen returns a cut of the edges that require the option to have the given value.
func (h *Headless) onlyWhen(cells map[Origin]bool, val bool) Cut {
	type k struct {
		n Node
	}
	memo := map[k][2]bool{}
	return func(from Node, e Edge) bool {
		x, ok := from.I.(*ssa.If)
		if !ok {
			return false
		}
		m, done := memo[k{from}]
		if !done {
			p, ok := h.condFrom(from.F, x.Cond, cells)
			m = [2]bool{p, ok}
			memo[k{from}] = m
		}
		if !m[1] {
			return false
		}
		// e.Branch: 1 true, 0 false
		takenWhen := (e.Branch == 1) == m[0]
		return takenWhen == val
	}
}

func cuts(cs ...Cut) Cut {
	return func(from Node, e Edge) bool {
		for _, c := range cs {
			if c != nil && c(from, e) {
				return true
			}
		}
		return false
	}
}

// iterEvery: every iteration passes a node satisfying must, and the loop is left only by its test.
func (h *Headless) iterEvery(f *Frame, it *Iter, must func(Node) bool, cut Cut) string {
	hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
	be := Node{F: f, I: it.BodyEntry().Instrs[0]}
	stop := func(n Node) bool { return n == hd }
	left := func(n Node) bool {
		if n.F != f || n.At != nil || it.Loop.Body[n.I.Block()] {
			return false
		}
		return !panics(n.I.Block())
	}
	if must != nil {
		seen := h.G.Reach([]Node{be}, func(n Node) bool { return must(n) || stop(n) }, cut)
		if seen[hd] && !must(hd) {
			return "an element can be skipped"
		}
	}
	for n := range h.G.Reach([]Node{be}, stop, cut) {
		if left(n) {
			return "the loop can be left early at " + h.G.nodePos(n)
		}
	}
	return ""
}

// panics: the block inevitably ends in a panic (no return can be reached from it).
func panics(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	hit := false
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		switch x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.Return:
			return false
		case *ssa.Panic:
			hit = true
		}
		st = append(st, x.Succs...)
	}
	return hit
}

// iterNodes lists the recognised iterations of all frames (optionally in one thread) whose
// collection elements satisfy pred.
type frameIter struct {
	F  *Frame
	It *Iter
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (h *Headless) iters(thread *Frame, pred func(t types.Type) bool) []frameIter {
	var r []frameIter
	for _, f := range h.G.Frames {
		if thread != nil && f.Thread != thread {
			continue
		}
		for _, it := range itersIn(f.Fn) {
			if et := elemType(it.Coll.Type()); et != nil && pred(et) {
				r = append(r, frameIter{f, it})
			}
		}
	}
	return r
}

// funcParamCalls: calls of function values returning []elem with no parameters.
func (h *Headless) producerCalls(elem *types.Named) []Node {
	return h.find(func(n Node) bool {
		c := callOf(n)
		if c == nil || c.IsInvoke() || c.StaticCallee() != nil {
			return false
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return false
		}
		sg := c.Signature()
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			return false
		}
		s, ok := sg.Results().At(0).Type().Underlying().(*types.Slice)
		return ok && types.Identical(types.Unalias(s.Elem()), elem)
	})
}

func checkC04(r *R) {
	r.Rule("guard", "the callback that computes fixes (suggestions) is only called when they are requested")
	r.Rule("called", "when requested, every report function with a callback calls it and stores the result in the diagnostic")
	r.Rule("who-may-write", "only the linter sets the fixes and suggestions of a diagnostic")
	r.Rule("delivered", "when requested, the frame of a rule diagnostic carries them")
	r.Rule("complete", "conversions cover every element")
	h := headless(r)
	if h == nil {
		return
	}
	si := h.stdoutOps()
	con := h.consumer(r, si)
	if !r.Need(con != nil, "the goroutine that writes diagnostics") {
		return
	}
	diagT := h.W.namedType(pRule, "RuleDiagnostic")
	fixT := h.W.namedType(pRule, "RuleFix")
	sugT := h.W.namedType(pRule, "RuleSuggestion")
	intT := h.W.namedType(pDiag, "Internal")
	if !r.Need(diagT != nil && fixT != nil && sugT != nil && intT != nil, "types of diagnostics, fixes and suggestions") {
		return
	}
	h.inOrder(r, "complete", si, func(t types.Type) bool { return types.Identical(t, fixT) || types.Identical(t, sugT) })
	// lists of fixes and suggestions, whatever struct the output form uses
	listT := func(t types.Type) bool {
		if types.Identical(t, fixT) || types.Identical(t, sugT) {
			return true
		}
		n, ok := deref(t).(*types.Named)
		return ok && isRepoPath(n.Obj().Pkg().Path()) && (strings.Contains(strings.ToLower(n.Obj().Name()), "fix") || strings.Contains(strings.ToLower(n.Obj().Name()), "suggestion"))
	}
	h.noCuts(r, "complete", listT)
	// the edges taken for diagnostics that do not come from a rule
	notRule := func(from Node, e Edge) bool {
		x, ok := from.I.(*ssa.If)
		if !ok {
			return false
		}
		b, ok := x.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		v := b.X
		if isNilConst(b.X) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		p, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		isNilBranch := (b.Op == token.EQL) == (e.Branch == 1)
		if types.Identical(types.Unalias(p.Elem()), diagT) {
			return isNilBranch
		}
		if types.Identical(types.Unalias(p.Elem()), intT) {
			return !isNilBranch
		}
		return false
	}
	for _, w := range []struct {
		flag, json string
		elem       *types.Named
	}{{"fix", "fixes", fixT}, {"fix-suggestions", "suggestions", sugT}} {
		cells := h.flagCells(w.flag)
		if !r.Need(len(cells) > 0, "the definition of option -"+w.flag) {
			return
		}
		prod := h.producerCalls(w.elem)
		base := h.G.Reach([]Node{h.Entry}, nil, nil)
		off := h.G.Reach([]Node{h.Entry}, nil, h.onlyWhen(cells, true))
		on := h.onlyWhen(cells, false)
		asked := h.under(on)
		for _, n := range prod {
			if !base[n] {
				continue
			}
			r.Ob("guard", w.flag+": callback called in "+h.where(n), !off[n], h.G.nodePos(n), "the callback runs although -"+w.flag+" was not given")
		}
		r.Min("guard", 2)
		// called: report functions with such a callback parameter
		prodSet := map[Node]bool{}
		for _, n := range prod {
			prodSet[n] = true
		}
		for field, fs := range h.ruleContextFuncs(r) {
			for _, f := range fs {
				if f == nil {
					continue
				}
				has := -1
				ps := f.Fn.Signature.Params()
				for i := 0; i < ps.Len(); i++ {
					if sg, ok := ps.At(i).Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
						if s, ok := sg.Results().At(0).Type().Underlying().(*types.Slice); ok && types.Identical(types.Unalias(s.Elem()), w.elem) {
							has = i
						}
					}
				}
				if has < 0 {
					continue
				}
				e, ok := h.G.Entry(f)
				if !ok {
					continue
				}
				sends, _ := h.sends(con.Ch)
				sendSet := map[Node]bool{}
				for _, s := range sends {
					sendSet[s] = true
				}
				_, ok = h.mustPass([]Node{e}, func(n Node) bool { return prodSet[n] && inFrameTree(n.F, f) }, func(n Node) bool { return sendSet[n] }, on)
				r.Ob("called", field+" calls its callback", ok, h.W.pos(f.Fn.Pos()), "with -"+w.flag+" the diagnostic can be sent without calling the rule's callback")
				// the value sent
				fieldName := fieldOfElem(diagT, w.elem)
				other := ""
				good, all := false, true
				for _, s := range sends {
					if !inFrameTree(s.F, f) || !asked.set[s] {
						continue
					}
					snd, ok := s.I.(*ssa.Send)
					if !ok {
						continue
					}
					for _, pth := range pathsToNamed(snd.X.Type(), diagT) {
						for _, o := range h.G.OriginsPath(VV{s.F, snd.X}, pth+"."+fieldName+"*") {
							if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && prodSet[Node{F: o.F, I: c}] {
								good = true
							}
						}
						for _, a := range asked.expand(asked.sentPart(s, pth)("."+fieldName+"*"), s, 0) {
							c, ok := a.V.(*ssa.Call)
							if !ok || a.Path != "" || !prodSet[Node{F: a.F, I: c}] {
								all = false
								other = a.String()
							}
						}
					}
				}
				r.Ob("called", field+" passes nothing else on", all, h.W.pos(f.Fn.Pos()), "with -"+w.flag+" something other than the result of the callback reaches the diagnostic that is sent: "+other)
				r.Ob("called", field+" passes the result on", good, h.W.pos(f.Fn.Pos()), "the result of the callback does not reach the diagnostic that is sent")
			}
		}
		// delivered
		fieldName := fieldOfElem(diagT, w.elem)
		loads := map[Node]bool{}
		for _, n := range h.Nodes {
			if n.F.Thread != con.F.Thread {
				continue
			}
			switch x := n.I.(type) {
			case *ssa.FieldAddr:
				if fv, _, ok := fieldOf(x); ok && fv.Name() == fieldName && types.Identical(types.Unalias(deref(x.X.Type())), diagT) {
					loads[n] = true
				}
			case *ssa.Field:
				if fv, _, ok := fieldOf(x); ok && fv.Name() == fieldName && types.Identical(types.Unalias(x.X.Type()), diagT) {
					loads[n] = true
				}
			}
		}
		be := Node{F: con.F, I: con.It.BodyEntry().Instrs[0]}
		bodies := map[Node]bool{}
		for _, n := range si.writes {
			if n.F.Thread != con.F.Thread {
				continue
			}
			for _, p := range si.ops[n].Pieces {
				if p.Kind == "body" {
					bodies[n] = true
					call := p.Body.V.(*ssa.Call)
					arg := VV{p.Body.F, call.Call.Args[0]}
					for _, t := range h.dynTypes(arg) {
						path, ok := jsonPath(t, w.json)
						if !r.Need(ok, "frame field "+w.json) {
							continue
						}
						// some origin of the frame field is a slice converted from the diagnostic's
						src := false
						for _, o := range h.G.OriginsPath(arg, path) {
							if c, ok := o.V.(*ssa.Const); ok && c.Value == nil {
								continue
							}
							if isZeroInit(o) && !strings.HasPrefix(o.Path, "*") || o.Path == "" {
								src = true
							}
						}
						r.Ob("delivered", w.json+": value", src, h.W.pos(call.Pos()), "frame field "+w.json+" is never filled")
					}
				}
			}
		}
		_, ok := h.mustPass([]Node{be}, func(n Node) bool { return loads[n] }, func(n Node) bool { return bodies[n] }, cuts(on, notRule))
		r.Ob("delivered", w.json+": every rule diagnostic", ok && len(loads) > 0 && len(bodies) > 0, h.G.nodePos(be), "with -"+w.flag+" the frame of a rule diagnostic can be written without reading the diagnostic's "+w.json)
		// with the option off the frame is still written
		seen := h.G.Reach([]Node{be}, nil, cuts(h.onlyWhen(cells, true), notRule))
		wr := false
		for n := range bodies {
			if seen[n] {
				wr = true
			}
		}
		r.Ob("delivered", w.json+": diagnostics do not depend on -"+w.flag, wr, h.G.nodePos(be), "no frame is written when -"+w.flag+" is off")
	}
	r.Min("called", 10)
	r.Min("delivered", 4)
	h.checkConversions(r, con, []*types.Named{fixT, sugT})

	// who may write
	cnt := 0
	for _, f := range h.W.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(types.Unalias(deref(fa.X.Type())), diagT) {
					continue
				}
				fv, _, _ := fieldOf(fa)
				if et := sliceElemOf(fv.Type()); et == nil || !types.Identical(et, fixT) && !types.Identical(et, sugT) {
					continue
				}
				cnt++
				ok = fnPkgPath(f) == pLinter || isNilConst(st.Val)
				r.Ob("who-may-write", fnName(f)+": "+fv.Name(), ok, h.W.pos(st.Pos()), "sets "+fv.Name()+" directly: it would be reported even when not requested")
			}
		}
	}
	r.Min("who-may-write", 4)
}

func sliceElemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return types.Unalias(s.Elem())
	}
	return nil
}

func fieldOfElem(t *types.Named, elem *types.Named) string {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if et := sliceElemOf(st.Field(i).Type()); et != nil && types.Identical(et, elem) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// pathsToNamed: the projection paths inside t that lead to a value of the named type.
func pathsToNamed(t types.Type, n *types.Named) []string {
	var r []string
	var walk func(t types.Type, p string, d int)
	walk = func(t types.Type, p string, d int) {
		if d > 4 {
			return
		}
		if types.Identical(types.Unalias(t), n) {
			r = append(r, p)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem(), p+"*", d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), p+"."+u.Field(i).Name(), d+1)
			}
		}
	}
	walk(t, "", 0)
	return r
}

// checkConversions: loops over the given element types in the consumer fill one output
// element for each input element, in order.
func (h *Headless) checkConversions(r *R, con *diagConsumer, elems []*types.Named) {
	its := h.iters(con.F.Thread, func(t types.Type) bool {
		for _, e := range elems {
			if types.Identical(types.Unalias(t), e) {
				return true
			}
		}
		return false
	})
	done := map[string]bool{}
	for _, fi := range its {
		key := fnName(fi.F.Fn) + " over " + typeName(elemType(fi.It.Coll.Type()))
		outs := func(n Node) bool {
			if n.F != fi.F && !inFrameTree(n.F, fi.F) {
				return false
			}
			switch x := n.I.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				return ok && n.F == fi.F && ia.Index == fi.It.Index && !sameVal(ia.X, fi.It.Coll)
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append" && n.F == fi.F
			}
			// a store through a field of the indexed element
			return false
		}
		outs2 := func(n Node) bool {
			if outs(n) {
				return true
			}
			if st, ok := n.I.(*ssa.Store); ok && n.F == fi.F {
				a := st.Addr
				for {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					a = fa.X
				}
				if ia, ok := a.(*ssa.IndexAddr); ok && ia.Index == fi.It.Index && !sameVal(ia.X, fi.It.Coll) {
					return true
				}
			}
			return false
		}
		bad := h.iterEvery(fi.F, fi.It, outs2, nil)
		// the output has one slot per element
		for b := range fi.It.Loop.Body {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.Index == fi.It.Index && !sameVal(ia.X, fi.It.Coll) {
					for _, o := range h.G.Origins(VV{fi.F, ia.X}) {
						if ms, ok := o.V.(*ssa.MakeSlice); ok {
							if c := lenArg(ms.Len); c == nil || o.F != fi.F || !sameVal(c, fi.It.Coll) {
								bad = "the output slice is not made with the length of the input"
							}
						}
					}
				}
			}
		}
		if done[key] && bad == "" {
			continue
		}
		done[key] = true
		r.Ob("complete", key, bad == "", h.W.pos(fi.It.If.Pos()), "conversion of "+typeName(elemType(fi.It.Coll.Type()))+": "+bad)
	}
	// every loop over such elements must be recognised as a full iteration
	for _, f := range h.G.Frames {
		if f.Thread != con.F.Thread {
			continue
		}
		rec := map[*ssa.BasicBlock]bool{}
		for _, it := range itersIn(f.Fn) {
			rec[it.Loop.Header] = true
		}
		for _, l := range loopsOf(f.Fn) {
			if rec[l.Header] {
				continue
			}
			for b := range l.Body {
				for _, in := range b.Instrs {
					ia, ok := in.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, e := range elems {
						if et := elemType(ia.X.Type()); et != nil && types.Identical(types.Unalias(et), e) {
							r.Bad("complete", fmt.Sprintf("%s: loop over %s", fnName(f.Fn), typeName(e)), h.W.pos(ia.Pos()), "this loop cannot be shown to cover every element")
						}
					}
				}
			}
		}
	}
	r.Min("complete", len(elems))
}

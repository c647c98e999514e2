package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "A diagnostic names the rule and the file it comes from",
		"Supergraph of headless mode. Every call that enters rule code (a rule's setup or one of its listeners) is found by its type. For each, the cell the report functions read the rule name from is traced backwards: on every path the last store must hold the name paired with the very rule or listener being called, stored in the same iteration. The pairing is followed through every struct literal that carries a function and a name up to the rule registry. The same is done for the source file, the type checker and the program of the rule context, and for the registry of listeners, which must be emptied between two files.",
		checkC05)
}

type ruleCall struct {
	N     Node
	Setup bool // the rule's setup (returns listeners); else a listener
}

// ruleCalls: the calls that enter rule code.
func (h *Headless) ruleCalls(r *R) []ruleCall {
	lt := h.W.namedType(pRule, "RuleListeners")
	if !r.Need(lt != nil, "type rule.RuleListeners") {
		return nil
	}
	mt, ok := lt.Underlying().(*types.Map)
	if !r.Need(ok, "rule.RuleListeners is a map of listener functions") {
		return nil
	}
	var res []ruleCall
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) || c.IsInvoke() || c.StaticCallee() != nil {
			continue
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			continue
		}
		sg := c.Signature()
		if sg.Results().Len() == 1 && types.Identical(types.Unalias(sg.Results().At(0).Type()), lt) {
			res = append(res, ruleCall{n, true})
			continue
		}
		if types.Identical(sg, mt.Elem().Underlying()) {
			if _, complete := h.G.targets(n.F, c); complete {
				continue // the traversal's own recursion
			}
			res = append(res, ruleCall{n, false})
		}
	}
	return res
}

// typeOfAnchor: the static type of the object an anchor's base denotes.
func baseType(a Anchor) types.Type {
	switch a.Kind {
	case "elem":
		return elemType(a.Coll.Type())
	case "item":
		if nx, ok := a.V.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
					return m.Elem()
				}
			}
		}
		return nil
	case "recv":
		if u, ok := a.V.(*ssa.UnOp); ok {
			return elemType(u.X.Type())
		}
	case "lookup":
		if l, ok := a.V.(*ssa.Lookup); ok {
			return elemType(l.X.Type())
		}
	case "cell":
		return deref(a.V.Type())
	}
	if a.V != nil {
		return a.V.Type()
	}
	return nil
}

func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		if path[0] == '*' {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			t, path = p.Elem(), path[1:]
			continue
		}
		f, rest := pathHead(path)
		if f == "" {
			return nil
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var nt types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				nt = st.Field(i).Type()
			}
		}
		t, path = nt, rest
	}
	return t
}

// splitLast cuts the last field off a path.
func splitLast(p string) (string, string, bool) {
	i := strings.LastIndexByte(p, '.')
	if i < 0 || strings.ContainsAny(p[i+1:], "*[{#<") {
		return "", "", false
	}
	return p[:i], p[i+1:], true
}

type pairKey struct {
	t      types.Type
	fn, nm string
}

type pairing struct {
	h    *Headless
	calc map[pairKey]bool
	busy map[pairKey]bool
	why  map[pairKey]string
	inv  []ruleCall
	n    int // pairs of struct literals examined
}

// levels: the dynamic call at n and the calls of the frames around it, innermost first.
func levels(n Node) []VV {
	var r []VV
	if c := callOf(n); c != nil {
		r = append(r, VV{n.F, c.Value})
	}
	f := n.F
	for f != nil && f.Parent != nil && f.Kind == kCall {
		c := f.Site.Common()
		if !c.IsInvoke() && c.StaticCallee() == nil {
			r = append(r, VV{f.Parent, c.Value})
		}
		f = f.Parent
	}
	return r
}

// rel: the function value belongs to the rule with the given name.
func (p *pairing) rel(fn, name Anchor, d int) (bool, string) {
	if d > 12 {
		return false, "pairing too deep"
	}
	h := p.h
	if fn.Kind == "call" && fn.Path == "" {
		return false, "not a function of a rule: " + fn.String()
	}
	// 1. two fields of one object
	if h.sameObj(fn, name) {
		fp, ff, ok1 := splitLast(fn.Path)
		np, nf, ok2 := splitLast(name.Path)
		if ok1 && ok2 && fp == np {
			pp := fp
			if fn.Kind == "item" {
				pp = strings.TrimPrefix(pp, "#2")
			}
			t := typeAt(baseType(fn), pp)
			if t == nil {
				return false, "unknown owner type of " + fn.String()
			}
			if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == pRule && nt.Obj().Name() == "Rule" {
				if nf != "Name" {
					return false, "rule name taken from field " + nf
				}
				return true, ""
			}
			return p.pairs(pairKey{types.Unalias(t), ff, nf}, d+1)
		}
	}
	// 2. a listener from the map returned by a rule's setup
	if fn.Kind == "item" && fn.Path == "#2" {
		rg := fn.V.(*ssa.Next).Iter.(*ssa.Range)
		src := h.anchor(VV{fn.F, rg.X})
		if src.Kind == "call" && src.Path == "" {
			why := ""
			for _, l := range levels(Node{F: src.F, I: src.V.(ssa.Instruction)}) {
				ok, w := p.rel(h.anchor(l), name, d+1)
				if ok {
					return true, ""
				}
				if why == "" {
					why = w
				}
			}
			return false, why
		}
		return false, "listeners come from " + src.String()
	}
	// 3. a closure around a rule
	if mc, ok := fn.V.(*ssa.MakeClosure); ok && fn.Path == "" {
		n := 0
		for _, f := range h.G.Frames {
			if f.Fn != mc.Fn || len(f.Bind) != len(mc.Bindings) || len(f.Bind) == 0 || f.Bind[0].F != fn.F {
				continue
			}
			for _, rc := range p.inv {
				if !inFrameTree(rc.N.F, f) {
					continue
				}
				n++
				if ok, why := p.rel(h.anchor(VV{rc.N.F, callOf(rc.N).Value}), name, d+1); !ok {
					return false, why
				}
			}
		}
		if n == 0 {
			return false, "no rule is called in " + fnName(mc.Fn.(*ssa.Function))
		}
		return true, ""
	}
	return false, fmt.Sprintf("the function is %s, the name is %s", fn.String(), name.String())
}

// pairs: every construction of a T stores matching values in the two fields.
func (p *pairing) pairs(k pairKey, d int) (bool, string) {
	if v, ok := p.calc[k]; ok {
		return v, p.why[k]
	}
	if p.busy[k] {
		return true, ""
	}
	p.busy[k] = true
	defer delete(p.busy, k)
	h := p.h
	n := 0
	res, why := true, ""
	fail := func(f *Frame, in ssa.Instruction, s string) {
		if res {
			res, why = false, fmt.Sprintf("%s at %s", s, h.G.nodePos(Node{F: f, I: in}))
		}
	}
	for _, f := range h.G.Frames {
		type st struct {
			base ssa.Value
			s    *ssa.Store
		}
		var fs, ns []st
		for _, b := range f.Fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(types.Unalias(deref(fa.X.Type())), k.t) {
					continue
				}
				fv, base, _ := fieldOf(fa)
				if fv.Name() == k.fn {
					fs = append(fs, st{base, s})
				}
				if fv.Name() == k.nm {
					ns = append(ns, st{base, s})
				}
			}
		}
		for _, a := range fs {
			n++
			hit := false
			for _, b := range ns {
				if !sameVal(a.base, b.base) {
					continue
				}
				hit = true
				if ok, w := p.rel(h.anchor(VV{f, a.s.Val}), h.anchor(VV{f, b.s.Val}), d+1); !ok {
					fail(f, b.s, "name and function do not belong together ("+w+")")
				}
			}
			if hit {
				continue
			}
			// the struct is copied into a variable whose name field is set afterwards
			cp := copiesOf(a.base)
			for _, b := range ns {
				for _, c := range cp {
					if sameVal(b.base, c) {
						hit = true
					}
				}
			}
			if na := h.anchorLoad(VV{f, a.base}, "."+k.nm, Node{F: f, I: a.s}, 0); !hit && na.Kind != "cell" {
				hit, _ = p.rel(h.anchor(VV{f, a.s.Val}), na, d+1)
			}
			if !hit {
				fail(f, a.s, "no name is stored next to the function")
			}
		}
		for _, b := range ns {
			hit := false
			for _, a := range fs {
				if sameVal(a.base, b.base) {
					hit = true
				}
			}
			if hit {
				continue
			}
			why := ""
			if fa := h.anchorLoad(VV{f, b.base}, "."+k.fn, Node{F: f, I: b.s}, 0); fa.Kind != "cell" {
				hit, why = p.rel(fa, h.anchor(VV{f, b.s.Val}), d+1)
			}
			for _, c := range copiesOf(b.base) {
				for _, a := range fs {
					if sameVal(a.base, c) {
						hit = true
					}
				}
			}
			if !hit {
				fail(f, b.s, "the name is changed without the function "+why)
			}
		}
	}
	if n == 0 {
		res, why = false, "no construction found"
	}
	p.n += n
	p.calc[k], p.why[k] = res, why
	return res, why
}

// copiesOf: the variables a local struct is copied into as a whole.
func copiesOf(base ssa.Value) []ssa.Value {
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var r []ssa.Value
	for _, u := range *al.Referrers() {
		ld, ok := u.(*ssa.UnOp)
		if !ok || ld.X != al {
			continue
		}
		for _, v := range *ld.Referrers() {
			if s, ok := v.(*ssa.Store); ok && s.Val == ld {
				r = append(r, s.Addr)
			}
		}
	}
	return r
}

// fieldCells: the memory cells from which stores to field fld of type t are loaded.
type fieldRead struct {
	Store Node
	Load  *ssa.UnOp
	Loc   Loc
}

func (h *Headless) fieldReads(t types.Type, fld string, frames func(*Frame) bool) (reads []fieldRead, other []Node) {
	for _, f := range h.G.Frames {
		if !frames(f) {
			continue
		}
		for _, b := range f.Fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(types.Unalias(deref(fa.X.Type())), t) {
					continue
				}
				if fv, _, _ := fieldOf(fa); fv.Name() != fld {
					continue
				}
				n := Node{F: f, I: s}
				lf, lv := h.throughCopies(VV{f, s.Val})
				ld, ok := lv.(*ssa.UnOp)
				if !ok || ld.Op.String() != "*" {
					other = append(other, n)
					continue
				}
				ls := h.G.addr(VV{lf, ld.X}, map[okey]bool{})
				if len(ls) != 1 {
					other = append(other, n)
					continue
				}
				reads = append(reads, fieldRead{n, ld, ls[0]})
			}
		}
	}
	return
}

// throughCopies follows parameters, bindings and single-value returns to the value itself.
func (h *Headless) throughCopies(v VV) (*Frame, ssa.Value) {
	for i := 0; i < 30; i++ {
		switch x := v.V.(type) {
		case *ssa.Parameter:
			ok := false
			if v.F.Args != nil {
				for i, p := range v.F.Fn.Params {
					if p == x && i < len(v.F.Args) && v.F.Args[i].V != nil {
						v, ok = v.F.Args[i], true
						break
					}
				}
			}
			if !ok {
				return v.F, v.V
			}
		case *ssa.ChangeType:
			v.V = x.X
		case *ssa.Call:
			key := siteKey{v.F, x, nil}
			if !h.G.inlined[key] || len(h.G.kids[key]) != 1 {
				return v.F, v.V
			}
			k := h.G.kids[key][0]
			var rv ssa.Value
			n := 0
			for _, b := range k.Fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					rv = ret.Results[0]
					n++
				}
			}
			if n != 1 {
				return v.F, v.V
			}
			v = VV{k, rv}
		case *ssa.UnOp:
			// a local copy: a cell written once
			if x.Op.String() == "*" {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if ss := h.cellStores(VV{v.F, al}, ""); len(ss) == 1 && ss[0].Path == "" {
						v = ss[0].Val
						continue
					}
				}
			}
			return v.F, v.V
		default:
			return v.F, v.V
		}
	}
	return v.F, v.V
}

func cellKey(h *Headless, l Loc) string { return rootKey(h.G, l) + l.Path }

// inReport: the frame is inside a function handed to the rules.
func inTrees(f *Frame, roots []*Frame) bool {
	for _, x := range roots {
		if inFrameTree(f, x) {
			return true
		}
	}
	return false
}

func checkC05(r *R) {
	r.Rule("name-cell", "the rule name and the source file of a diagnostic are read from the worker's own context cells, in every report function, and no report function changes these cells")
	r.Rule("name-before-call", "on every path to a call of rule code the last store of the rule name is the name of the rule called")
	r.Rule("file-before-call", "on every path to a call of rule code the last store of the source file is the file being linted")
	r.Rule("context-file", "the rule context handed to a rule holds the current file, and the program and type checker of the current work item")
	r.Rule("traversal-file", "the nodes handed to listeners are those of the current file")
	r.Rule("own-context", "the context cells belong to one worker")
	r.Rule("listeners-reset", "the listeners of one file are removed before those of the next are registered")
	h := headless(r)
	if h == nil {
		return
	}
	inv := h.ruleCalls(r)
	if !r.Need(len(inv) > 0, "calls that enter rule code") {
		return
	}
	diagT := h.W.namedType(pRule, "RuleDiagnostic")
	ctxT := h.W.namedType(pRule, "RuleContext")
	if !r.Need(diagT != nil && ctxT != nil, "types rule.RuleDiagnostic and rule.RuleContext") {
		return
	}
	// --- the cells
	var reportRoots []*Frame
	rcf := h.ruleContextFuncs(r)
	for _, fs := range rcf {
		for _, f := range fs {
			if f != nil {
				reportRoots = append(reportRoots, f)
			}
		}
	}
	if !r.Need(len(reportRoots) > 0, "the report functions of the rule context") {
		return
	}
	r.Info["report functions in context"] = len(reportRoots)
	inReport := func(f *Frame) bool { return inTrees(f, reportRoots) }
	cells := map[string]map[string]Loc{}
	for _, fld := range []string{"RuleName", "SourceFile"} {
		reads, other := h.fieldReads(diagT, fld, inReport)
		for _, n := range other {
			r.Bad("name-cell", fld+" in "+h.where(n), h.G.nodePos(n), "the "+fld+" of a diagnostic is not read from the worker's context")
		}
		if !r.Need(len(reads) > 0, "stores of RuleDiagnostic."+fld+" in the report functions") {
			return
		}
		cells[fld] = map[string]Loc{}
		for _, rd := range reads {
			cells[fld][cellKey(h, rd.Loc)] = rd.Loc
			ss := h.cellStores(rd.Loc.Root, rd.Loc.Path)
			bad := ""
			for _, s := range ss {
				if inReport(s.Node.F) {
					bad = h.G.nodePos(s.Node)
				}
			}
			r.Ob("name-cell", fld+" in "+h.where(rd.Store), bad == "", h.G.nodePos(rd.Store), "a report function changes the cell: "+bad)
		}
		// every report function sends a diagnostic whose field was set on the way
		for name, fs := range rcf {
			for _, f := range fs {
				if f == nil {
					continue
				}
				e, _ := h.G.Entry(f)
				stored := func(n Node) bool {
					for _, rd := range reads {
						if rd.Store == n {
							return true
						}
					}
					return false
				}
				sent := func(n Node) bool { _, ok := n.I.(*ssa.Send); return ok && inFrameTree(n.F, f) }
				if bad, ok := h.mustPass([]Node{e}, stored, sent, func(from Node, ed Edge) bool { return !inFrameTree(ed.To.F, f) }); !ok {
					r.Bad("name-cell", fld+" in "+name, h.G.nodePos(bad), name+" can send a diagnostic whose "+fld+" was not set")
				} else {
					r.Ob("name-cell", fld+" set on every path of "+name, true, "", "")
				}
			}
		}
	}
	p := &pairing{h: h, calc: map[pairKey]bool{}, busy: map[pairKey]bool{}, why: map[pairKey]string{}, inv: inv}
	for _, rc := range inv {
		kind := "listener"
		if rc.Setup {
			kind = "setup"
		}
		th := rc.N.F.Thread
		con := fmt.Sprintf("%s call in %s", kind, h.where(rc.N))
		// own context
		nmLocs := threadLocs(cells["RuleName"], th)
		flLocs := threadLocs(cells["SourceFile"], th)
		r.Ob("own-context", con, len(nmLocs) == 1 && len(flLocs) == 1, h.G.nodePos(rc.N), fmt.Sprintf("rule code runs in a worker that does not own exactly one context (name cells %d, file cells %d created in this worker)", len(nmLocs), len(flLocs)))
		if len(nmLocs) != 1 || len(flLocs) != 1 {
			continue
		}
		// name
		ss, open := h.reachingOf(rc.N, h.cellStores(nmLocs[0].Root, nmLocs[0].Path))
		if open || len(ss) == 0 {
			r.Bad("name-before-call", con, h.G.nodePos(rc.N), "rule code can be called before the rule name is set")
		}
		for _, s := range ss {
			ok, why := false, ""
			for _, l := range levels(rc.N) {
				fa := h.anchor(l)
				o, w := p.rel(fa, h.anchor(s.Val), 0)
				if o {
					if st := h.stale(rc.N, s.Node, ss, fa); st != "" {
						o, w = false, st
					}
				}
				if o {
					ok = true
					break
				}
				if why == "" {
					why = w
				}
			}
			r.Ob("name-before-call", con, ok, h.G.nodePos(s.Node), "the rule name stored here does not belong to the rule code called at "+h.G.nodePos(rc.N)+": "+why)
		}
		// file
		fss, open := h.reachingOf(rc.N, h.cellStores(flLocs[0].Root, flLocs[0].Path))
		if open || len(fss) == 0 {
			r.Bad("file-before-call", con, h.G.nodePos(rc.N), "rule code can be called before the source file is set")
		}
		var file *Anchor
		for _, s := range fss {
			a := h.anchor(s.Val)
			if a.Kind != "recv" && a.Kind != "elem" {
				r.Bad("file-before-call", con, h.G.nodePos(s.Node), "the file stored here is not the file taken from the work queue: "+a.String())
				continue
			}
			if file != nil && !h.sameAnchor(*file, a) {
				r.Bad("file-before-call", con, h.G.nodePos(s.Node), "different files can be current")
				continue
			}
			file = &a
			st := h.stale(rc.N, s.Node, fss, a)
			r.Ob("file-before-call", con, st == "", h.G.nodePos(s.Node), st)
		}
		if file == nil {
			continue
		}
		if rc.Setup {
			h.ctxFields(r, rc, ctxT, *file, con)
		} else {
			h.traversalRoot(r, rc, *file, con)
		}
		h.registryReset(r, rc, *file, con)
	}
	r.Info["calls into rule code"] = len(inv)
	r.Info["rule/name pairs examined"] = p.n
	r.Min("name-before-call", 8)
	r.Min("file-before-call", 8)
	r.Min("context-file", 12)
	r.Min("listeners-reset", 4)
	r.Min("traversal-file", 4)
}

func threadLocs(m map[string]Loc, th *Frame) []Loc {
	var r []Loc
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if l := m[k]; l.Root.F != nil && l.Root.F.Thread == th {
			r = append(r, l)
		}
	}
	return r
}

// stale: going back from n, the anchor's definition is executed again before one of the stores.
func (h *Headless) stale(n, store Node, stores []memStore, a Anchor) string {
	df, ok := a.def()
	if !ok {
		return ""
	}
	// a phi is executed when its block is entered: the whole run of phis of the block counts
	is := map[Node]bool{}
	for _, s := range stores {
		is[s.Node] = true
	}
	hit := false
	h.back(n, func(x Node) bool { return is[x] }, func(x Node) {
		if x == df {
			hit = true
		}
	})
	if hit && !is[df] {
		return "on some path the value is still that of an earlier element (no store after " + h.G.nodePos(df) + ")"
	}
	return ""
}

// ctxFields: the context handed to a rule's setup.
func (h *Headless) ctxFields(r *R, rc ruleCall, ctxT *types.Named, file Anchor, con string) {
	// the context argument, at the outermost level where it is built
	c := callOf(rc.N)
	var arg VV
	for _, a := range c.Args {
		if types.Identical(types.Unalias(a.Type()), ctxT) {
			arg = VV{rc.N.F, a}
		}
	}
	if arg.V == nil {
		r.Bad("context-file", con, h.G.nodePos(rc.N), "no rule context is passed")
		return
	}
	f, v := h.throughCopies(arg)
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		r.Bad("context-file", con, h.G.nodePos(rc.N), "the rule context is not read from a variable of the worker: undecided")
		return
	}
	ls := h.G.addr(VV{f, ld.X}, map[okey]bool{})
	if len(ls) != 1 {
		r.Bad("context-file", con, h.G.nodePos(rc.N), "the rule context variable is ambiguous")
		return
	}
	if ls[0].Root.F == nil || ls[0].Root.F.Thread != rc.N.F.Thread {
		r.Bad("own-context", con, h.G.nodePos(rc.N), "the rule context variable is shared between workers")
		return
	}
	at := Node{F: f, I: ld}
	// the work item: what the file's queue is a part of
	var item Anchor
	haveItem := false
	if u, ok := file.V.(*ssa.UnOp); ok && file.Kind == "recv" {
		q := h.anchor(VV{file.F, u.X})
		if q.Kind == "recv" || q.Kind == "elem" {
			item, haveItem = q.base(), true
		}
	}
	for _, fld := range []string{"SourceFile", "Program", "TypeChecker"} {
		ss, _ := h.reachingOf(at, h.cellStores(ls[0].Root, ls[0].Path+"."+fld))
		if len(ss) == 0 {
			r.Bad("context-file", con+" ctx."+fld, h.G.nodePos(rc.N), "never set")
			continue
		}
		for _, s := range ss {
			rest := strings.TrimPrefix(ls[0].Path+"."+fld, s.Path)
			a := h.anchorP(s.Val, rest, 0)
			if fld == "SourceFile" {
				ok := h.sameAnchor(a, file)
				why := "the context's file is " + a.String() + ", the file being linted is " + file.String()
				if ok {
					if st := h.stale(at, s.Node, ss, a); st != "" {
						ok, why = false, st
					}
				}
				r.Ob("context-file", con+" ctx."+fld, ok, h.G.nodePos(s.Node), why)
				continue
			}
			var ok bool
			why := ""
			if haveItem && h.sameObj(a, item) {
				ok = true
				if st := h.stale(at, s.Node, ss, a); st != "" {
					ok, why = false, st
				}
			} else if fld == "Program" {
				// one program for the whole run of workers
				po := originSet(h.G.OriginsPath(s.Val, rest))
				ok = len(po) == 1 && h.oneProgram(rc, po)
				why = "the program is not that of the work item the file comes from"
			} else {
				why = "the type checker is not that of the work item the file comes from: " + a.String()
			}
			r.Ob("context-file", con+" ctx."+fld, ok, h.G.nodePos(s.Node), why)
		}
	}
}

// oneProgram: the given program origin is the one whose checkers feed the worker.
func (h *Headless) oneProgram(rc ruleCall, po map[Origin]bool) bool {
	for _, n := range h.calls(tsgoPath + "/internal/compiler.Program.ForEachCheckerParallel") {
		if c := callOf(n); len(c.Args) > 0 && overlapO(po, originSet(h.G.Origins(VV{n.F, c.Args[0]}))) {
			return true
		}
	}
	return false
}

// traversalRoot: the outermost traversal callback around the listener call starts at the current file.
func (h *Headless) traversalRoot(r *R, rc ruleCall, file Anchor, con string) {
	var outer *Frame
	for f := rc.N.F; f != nil && f != rc.N.F.Thread; f = f.Parent {
		if f.Kind == kCallback && f.Site != nil {
			if c := f.Site.Common(); strings.HasSuffix(realPath(h.W, c), "ForEachChild") {
				outer = f
			}
		}
	}
	if outer == nil {
		r.Bad("traversal-file", con, h.G.nodePos(rc.N), "the listener call is not inside a traversal of the file: undecided")
		return
	}
	c := outer.Site.Common()
	var recv ssa.Value
	if c.IsInvoke() {
		recv = c.Value
	} else if len(c.Args) > 0 {
		recv = c.Args[0]
	}
	v := recv
	f := outer.Parent
	for i := 0; i < 10; i++ {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			v = fa.X
			continue
		}
		if cl, ok := v.(*ssa.Call); ok && len(cl.Call.Args) > 0 && strings.HasSuffix(realPath(h.W, &cl.Call), ".AsNode") {
			v = cl.Call.Args[0]
			continue
		}
		break
	}
	a := h.anchor(VV{f, v})
	r.Ob("traversal-file", con, h.sameAnchor(a, file), h.G.nodePos(Node{F: f, I: outer.Site}), "the traversal starts at "+a.String()+", the current file is "+file.String())
}

// registries: the maps from which the listener called at n is looked up, and the nodes registering in them.
func (h *Headless) registryReset(r *R, rc ruleCall, file Anchor, con string) {
	lt := h.W.namedType(pRule, "RuleListeners").Underlying().(*types.Map)
	th := rc.N.F.Thread
	if rc.Setup {
		return
	}
	// registering nodes: map updates in this worker whose value is (a slice of) something holding a listener
	var regs []Node
	for _, n := range h.Nodes {
		if n.F.Thread != th {
			continue
		}
		mu, ok := n.I.(*ssa.MapUpdate)
		if !ok || !holdsFunc(mu.Value.Type(), lt.Elem(), 0) {
			continue
		}
		regs = append(regs, n)
	}
	fileDef, ok := file.def()
	if !ok {
		r.Bad("listeners-reset", con, h.G.nodePos(rc.N), "cannot tell where the next file starts")
		return
	}
	nreg := 0
	for _, n := range regs {
		mu := n.I.(*ssa.MapUpdate)
		if h.emptied(n, mu) {
			continue // this is a reset
		}
		nreg++
		ids := originSet(h.G.Origins(VV{n.F, mu.Map}))
		reset := h.resetNodes(th, ids)
		// after registering, before the next file
		seen := h.G.Reach(h.G.After(n), func(x Node) bool { return reset[x] || x == fileDef }, nil)
		if !seen[fileDef] {
			r.Ob("listeners-reset", con+" registry of "+h.where(n), true, "", "")
			continue
		}
		// or after taking the file, before registering
		seen = h.G.Reach(h.G.After(fileDef), func(x Node) bool { return reset[x] || x == fileDef }, nil)
		r.Ob("listeners-reset", con+" registry of "+h.where(n), !seen[n], h.G.nodePos(n), "listeners registered for one file can still be registered when the next file is linted")
	}
	if nreg == 0 {
		r.Bad("listeners-reset", con, h.G.nodePos(rc.N), "no registration of listeners found in this worker: undecided")
	}
}

func holdsFunc(t, fn types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if types.Identical(t, fn) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return holdsFunc(u.Elem(), fn, d+1)
	case *types.Pointer:
		return holdsFunc(u.Elem(), fn, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsFunc(u.Field(i).Type(), fn, d+1) {
				return true
			}
		}
	}
	return false
}

// emptied: the map update stores an empty value.
func (h *Headless) emptied(n Node, mu *ssa.MapUpdate) bool {
	f, v := h.throughCopies(VV{n.F, mu.Value})
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if x.High != nil {
			if k, ok := constInt(x.High); ok && k == 0 {
				return true
			}
		}
	case *ssa.MakeSlice:
		k, ok := constInt(x.Len)
		return ok && k == 0 && f != nil
	}
	return false
}

// resetNodes: nodes after which the registry is empty: clear, a fresh map, or the start of a
// complete loop over the registry that empties every entry.
func (h *Headless) resetNodes(th *Frame, ids map[Origin]bool) map[Node]bool {
	res := map[Node]bool{}
	for _, n := range h.Nodes {
		if n.F.Thread != th {
			continue
		}
		if c := callOf(n); c != nil && calleePath(c) == "builtin.clear" && overlapO(ids, originSet(h.G.Origins(VV{n.F, c.Args[0]}))) {
			res[n] = true
		}
		if mm, ok := n.I.(*ssa.MakeMap); ok && ids[Origin{n.F, mm, ""}] && len(ids) == 1 {
			res[n] = true
		}
	}
	for _, f := range h.G.Frames {
		if f.Thread != th {
			continue
		}
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "map" || !overlapO(ids, originSet(h.G.Origins(VV{f, it.Coll}))) {
				continue
			}
			key := Anchor{Kind: "item", F: f, V: it.Source, Path: "#1"}
			must := func(n Node) bool {
				if mu, ok := n.I.(*ssa.MapUpdate); ok && h.emptied(n, mu) && overlapO(ids, originSet(h.G.Origins(VV{n.F, mu.Map}))) {
					return h.sameAnchor(h.anchor(VV{n.F, mu.Key}), key)
				}
				if c := callOf(n); c != nil && calleePath(c) == "builtin.delete" && overlapO(ids, originSet(h.G.Origins(VV{n.F, c.Args[0]}))) {
					return h.sameAnchor(h.anchor(VV{n.F, c.Args[1]}), key)
				}
				return false
			}
			if h.iterEvery(f, it, must, nil) != "" {
				continue
			}
			if nx, ok := it.Source.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					res[Node{F: f, I: rg}] = true
				}
			}
		}
	}
	return res
}

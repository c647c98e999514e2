package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pCore  = tsgoPath + "/internal/core"
	pTsopt = tsgoPath + "/internal/tsoptions"
)

func init() {
	register("C15", "Compiler errors are reported exactly when, and as, asked for",
		"Over the supergraph of headless mode: every report of a compiler error is traced to the list of engine diagnostics it iterates; the list's value must be the engine's complete answer for a requested file (through filters the engine itself applies, concatenation and deduplication only). Loops over files and diagnostics are complete, the only skip being a diagnostic of another file; the files are those that are linted, under the same program. Flag gating is decided by reachability with the flag's branches cut, each reported member by provenance.",
		checkC15)
}

// ---- simulation that leaves a view behind ------------------------------------

type explored struct {
	trav  map[Node]map[Node]bool
	trunc bool
}

// cut removes the edges of the main thread that were never taken.
func (x *explored) cut(root *Frame) Cut {
	return func(from Node, e Edge) bool {
		if from.F.Thread != root {
			return false
		}
		return !x.trav[from][e.To]
	}
}

// explore simulates the main thread; prune takes edges out, step watches.
func (h *Headless) explore(prune func(from Node, e Edge) bool, track func(types.Type) bool, step func(sim *Sim, n Node, st *SState) bool) *explored {
	x := &explored{trav: map[Node]map[Node]bool{}}
	sim := &Sim{G: h.G, SkipThread: true}
	sim.Track = func(t types.Type) bool { return trackDefault(t) || track != nil && track(t) }
	if step != nil {
		sim.Step = func(n Node, st *SState) bool { return step(sim, n, st) }
	}
	sim.Edge = func(from Node, e Edge, st *SState) bool {
		if prune != nil && prune(from, e) {
			return false
		}
		if x.trav[from] == nil {
			x.trav[from] = map[Node]bool{}
		}
		x.trav[from][e.To] = true
		return true
	}
	sim.Fork = func(n Node, st *SState) []*SState {
		call, ok := n.I.(*ssa.Call)
		if ok && isEncode(calleePath(callOf(n))) {
			sim.set(st, factKey{VV{n.F, call}, 1}, "nil")
			return []*SState{st}
		}
		return nil
	}
	sim.Run([]Node{h.Entry}, &SState{})
	x.trunc = sim.Trunc
	return x
}

// lintStarts: the nodes of the main thread at which rule code is entered (or its workers started).
func (h *Headless) lintStarts(r *R) map[Node]bool {
	m := map[Node]bool{}
	for _, rc := range h.ruleCalls(r) {
		if rc.N.F.Thread == h.G.Root {
			m[rc.N] = true
			continue
		}
		f := rc.N.F
		for f.Thread != h.G.Root {
			f = f.Thread
			if f.Parent == nil {
				break
			}
			m[Node{F: f.Parent, I: f.Site, At: f.At}] = true
			f = f.Parent
		}
	}
	return m
}

// ---- what is said about an engine diagnostic ---------------------------------

func (a Anchor) vv() VV { return VV{a.F, a.V} }

// method: the anchor is the result of the method on a receiver.
func (h *Headless) method(a Anchor, names ...string) (VV, *ssa.Call, bool) {
	c, ok := a.V.(*ssa.Call)
	if !ok || a.Kind != "call" || a.Path != "" {
		return VV{}, nil, false
	}
	p := realPath(h.W, &c.Call)
	for _, n := range names {
		if p == n {
			if c.Call.IsInvoke() {
				return VV{a.F, c.Call.Value}, c, true
			}
			if len(c.Call.Args) > 0 {
				return VV{a.F, c.Call.Args[0]}, c, true
			}
		}
	}
	return VV{}, nil, false
}

// rangeDiag: the engine diagnostic whose range the value is.
func (h *Headless) rangeDiag(a Anchor) (Anchor, bool) {
	if d, _, ok := h.method(a, pAst+".Diagnostic.Loc"); ok {
		return h.anchor(d), true
	}
	c, ok := a.V.(*ssa.Call)
	if !ok || a.Kind != "call" || a.Path != "" || realPath(h.W, &c.Call) != pCore+".NewTextRange" || len(c.Call.Args) != 2 {
		return Anchor{}, false
	}
	side := func(v ssa.Value, n string) (Anchor, bool) {
		x := h.anchor(VV{a.F, v})
		if d, _, ok := h.method(x, pAst+".Diagnostic."+n); ok {
			return h.anchor(d), true
		}
		if l, _, ok := h.method(x, pCore+".TextRange."+n); ok {
			return h.rangeDiag(h.anchor(l))
		}
		return Anchor{}, false
	}
	p, ok1 := side(c.Call.Args[0], "Pos")
	e, ok2 := side(c.Call.Args[1], "End")
	if !ok1 || !ok2 || !h.sameAnchor(p, e) {
		return Anchor{}, false
	}
	return p, true
}

// codeDiag: the diagnostic whose "TS" number the text is.
func (h *Headless) codeDiag(a Anchor) (Anchor, bool) {
	code := func(v VV) (Anchor, bool) {
		for i := 0; i < 4; i++ {
			f, x := h.throughLocal(v)
			if c, ok := x.(*ssa.Convert); ok {
				v = VV{f, c.X}
				continue
			}
			if c, ok := x.(*ssa.MakeInterface); ok {
				v = VV{f, c.X}
				continue
			}
			v = VV{f, x}
			break
		}
		d, _, ok := h.method(h.anchor(v), pAst+".Diagnostic.Code")
		if !ok {
			return Anchor{}, false
		}
		return h.anchor(d), true
	}
	switch x := a.V.(type) {
	case *ssa.BinOp:
		if s, ok := constStr(x.X); ok && s == "TS" && x.Op == token.ADD {
			n := h.anchor(VV{a.F, x.Y})
			c, ok := n.V.(*ssa.Call)
			if !ok || n.Kind != "call" {
				return Anchor{}, false
			}
			switch calleePath(&c.Call) {
			case "strconv.Itoa":
				return code(VV{n.F, c.Call.Args[0]})
			case "strconv.FormatInt":
				if b, ok := constInt(c.Call.Args[1]); ok && b == 10 {
					return code(VV{n.F, c.Call.Args[0]})
				}
			case "fmt.Sprint":
				if es := variadic(c.Call.Args[0]); len(es) == 1 {
					return code(VV{n.F, es[0]})
				}
			}
		}
	case *ssa.Call:
		if a.Kind == "call" && calleePath(&x.Call) == "fmt.Sprintf" {
			s, ok := constStr(x.Call.Args[0])
			es := variadic(x.Call.Args[1])
			if ok && (s == "TS%d" || s == "TS%v") && len(es) == 1 {
				return code(VV{a.F, es[0]})
			}
		}
	}
	return Anchor{}, false
}

// variadic: the values of a variadic argument list.
func variadic(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	es, ok := literalElems(nil, al)
	if !ok {
		return nil
	}
	var r []ssa.Value
	for _, e := range es {
		r = append(r, e.V)
	}
	return r
}

// textDiag: the diagnostic whose text in the default language the value is; more tells that
// something is added.
func (h *Headless) textDiag(a Anchor) (d Anchor, ok bool) {
	v, c, ok := h.method(a, pAst+".Diagnostic.Localize")
	if !ok || len(c.Call.Args) != 2 {
		return Anchor{}, false
	}
	for _, o := range h.G.Origins(VV{a.F, c.Call.Args[1]}) {
		call, isCall := o.V.(*ssa.Call)
		if isCall && strings.HasSuffix(calleePath(&call.Call), "DefaultLocale") {
			continue
		}
		if strings.HasSuffix(o.Path, "*") {
			if g, ok := o.V.(*ssa.Global); ok && g.Name() == "Default" {
				continue
			}
		}
		return Anchor{}, false
	}
	return h.anchor(v), true
}

// ---- reports of internal diagnostics -----------------------------------------

func isInternalT(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pDiag {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

type intReport struct {
	N   Node
	Arg VV
}

// internalReports: the calls that hand an internal diagnostic to the linter's caller.
func (h *Headless) internalReports() []intReport {
	var r []intReport
	takes := func(f *ssa.Function) bool {
		for ; f != nil; f = f.Parent() {
			for _, p := range f.Params {
				if isInternalT(p.Type()) {
					return true
				}
			}
		}
		return false
	}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || takes(n.F.Fn) {
			continue
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			continue
		}
		for _, a := range c.Args {
			if isInternalT(a.Type()) {
				r = append(r, intReport{n, VV{n.F, a}})
			}
		}
	}
	return r
}

// field names of the internal diagnostic, by their role
func (h *Headless) internalField(i string) string { return "." + i }

type compErr struct {
	r    *R
	h    *Headless
	memo map[VV]*diagList
	t2   *types.Named
}

// diagList is what a list of engine diagnostics consists of.
type diagList struct {
	kinds map[string]bool // syn, semraw, sem, inc
	files []Anchor        // the files asked about
	progs []VV
	lists []VV // lists of files asked about
	why   string
}

func (d *diagList) key() string {
	var s []string
	for k := range d.kinds {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func (c *compErr) contents(v VV) *diagList {
	if d, ok := c.memo[v]; ok {
		if d == nil {
			return &diagList{why: "the list is built in a loop", kinds: map[string]bool{}}
		}
		return d
	}
	c.memo[v] = nil
	d := c.contents1(v)
	c.memo[v] = d
	return d
}

func (c *compErr) contents1(v VV) *diagList {
	h := c.h
	d := &diagList{kinds: map[string]bool{}}
	join := func(o *diagList) {
		for k := range o.kinds {
			d.kinds[k] = true
		}
		d.files = append(d.files, o.files...)
		d.progs = append(d.progs, o.progs...)
		d.lists = append(d.lists, o.lists...)
		if d.why == "" {
			d.why = o.why
		}
	}
	a := h.anchor(v)
	if a.Path != "" {
		d.why = "the list comes from " + a.String()
		return d
	}
	switch x := a.V.(type) {
	case *ssa.Const:
		return d
	case *ssa.MakeSlice:
		if n, ok := constInt(x.Len); ok && n == 0 {
			return d
		}
	case *ssa.Phi:
		first := ""
		for i, e := range x.Edges {
			if e == x || !h.G.aliveEdge(a.F, x.Block(), i) {
				continue
			}
			o := c.contents(VV{a.F, e})
			join(o)
			if i == 0 {
				first = o.key()
			} else if first != o.key() {
				d.why = "on some paths the list is incomplete (" + first + " or " + o.key() + ")"
			}
		}
		return d
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if es, ok := literalElems(a.F, al); ok && len(es) == 0 {
				return d
			}
		}
	case *ssa.Lookup:
		m := h.anchor(VV{a.F, x.X})
		p, call, ok := h.method(m, pComp+".Program.GetSemanticDiagnosticsWithoutNoEmitFiltering")
		if ok {
			d.kinds["semraw"] = true
			d.files = []Anchor{h.anchor(VV{a.F, x.Index})}
			d.progs = []VV{p}
			d.lists = []VV{{m.F, call.Call.Args[len(call.Call.Args)-1]}}
			return d
		}
	case *ssa.Call:
		if a.Kind != "call" {
			break
		}
		args := x.Call.Args
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			join(c.contents(VV{a.F, args[0]}))
			if len(args) > 1 {
				join(c.contents(VV{a.F, args[1]}))
			}
			return d
		}
		p := realPath(h.W, &x.Call)
		if i := strings.Index(p, "["); i >= 0 {
			p = p[:i]
		}
		switch p {
		case pComp + ".Program.GetSyntacticDiagnostics", pComp + ".Program.GetSemanticDiagnostics", pComp + ".Program.GetIncludeProcessorDiagnostics":
			switch {
			case strings.HasSuffix(p, "Syntactic"+"Diagnostics"):
				d.kinds["syn"] = true
			case strings.HasSuffix(p, "SemanticDiagnostics"):
				d.kinds["sem"], d.kinds["inc"] = true, true
			default:
				d.kinds["inc"] = true
			}
			d.files = []Anchor{h.anchor(VV{a.F, args[len(args)-1]})}
			d.progs = []VV{{a.F, args[0]}}
			return d
		case pComp + ".FilterNoEmitSemanticDiagnostics":
			join(c.contents(VV{a.F, args[0]}))
			if d.kinds["semraw"] {
				delete(d.kinds, "semraw")
				d.kinds["sem"] = true
			}
			o := h.anchor(VV{a.F, args[1]})
			if p, _, ok := h.method(o, pComp+".Program.Options"); ok {
				d.progs = append(d.progs, p)
			} else if d.why == "" {
				d.why = "errors are filtered by options that are not the program's"
			}
			return d
		case pComp + ".SortAndDeduplicateDiagnostics", "slices.Clone", "slices.Clip", "slices.Grow":
			join(c.contents(VV{a.F, args[0]}))
			return d
		case "slices.Concat":
			for _, e := range variadic(args[0]) {
				join(c.contents(VV{a.F, e}))
			}
			return d
		case pCore + ".Concatenate":
			for _, e := range args {
				join(c.contents(VV{a.F, e}))
			}
			return d
		}
		d.why = "the list is the result of " + p
		return d
	}
	// a variable with several assignments
	if a.Kind == "cell" {
		first := ""
		for i, s := range h.cellStores(VV{a.F, a.V}, "") {
			o := c.contents(s.Val)
			join(o)
			if i == 0 {
				first = o.key()
			} else if o.key() != first {
				d.why = "on some paths the list is incomplete (" + first + " or " + o.key() + ")"
			}
		}
		if first != "" {
			return d
		}
	}
	d.why = "the list comes from " + a.String()
	return d
}

// payloadCells: where the values of a boolean member of the request live.
func (h *Headless) payloadCells(t *types.Named, member string) map[Origin]bool {
	cells := map[Origin]bool{}
	st := t.Underlying().(*types.Struct)
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.FieldAddr:
			if namedOf(deref(x.X.Type())) == t && jsonName(st, x.Field) == member {
				for _, l := range h.G.addr(VV{n.F, x}, map[okey]bool{}) {
					cells[Origin{l.Root.F, l.Root.V, "*" + l.Path}] = true
				}
			}
		case *ssa.Field:
			if namedOf(x.X.Type()) == t && jsonName(st, x.Field) == member {
				for _, o := range h.G.Origins(VV{n.F, x}) {
					cells[o] = true
				}
			}
		}
	}
	return cells
}

// requestType: the type of the decoded request.
func requestType(r *R) *types.Named {
	c := &reqAn{r: r}
	ts := c.structsWith("configs")
	if !r.Need(len(ts) == 1, "the type of a request (one member \"configs\")") {
		return nil
	}
	return ts[0]
}

func headerNode(f *Frame, it *Iter) Node { return Node{F: f, I: it.Loop.Header.Instrs[0]} }

// fileCond: what a branch condition says about the file of the diagnostic: "nil" or "name"
// (it is another file), with the truth value that goes with it.
func (h *Headless) fileCond(f *Frame, v ssa.Value, d, file Anchor) (kind string, when bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, w := h.fileCond(f, x.X, d, file)
			return k, !w
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return "", false
		}
		fileOf := func(v ssa.Value) bool {
			r, _, ok := h.method(h.anchor(VV{f, v}), pAst+".Diagnostic.File")
			return ok && h.sameAnchor(h.anchor(r), d)
		}
		nameOf := func(v ssa.Value) (own, given bool) {
			r, _, ok := h.method(h.anchor(VV{f, v}), pAst+".SourceFile.FileName")
			if !ok {
				return false, false
			}
			ra := h.anchor(r)
			if h.sameAnchor(ra, file) {
				return false, true
			}
			q, _, ok := h.method(ra, pAst+".Diagnostic.File")
			return ok && h.sameAnchor(h.anchor(q), d), false
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if fileOf(p[0]) {
				if isNilConst(p[1]) {
					return "nil", x.Op == token.EQL
				}
				if h.sameAnchor(h.anchor(VV{f, p[1]}), file) {
					return "name", x.Op == token.NEQ
				}
			}
			if o, _ := nameOf(p[0]); o {
				if _, g := nameOf(p[1]); g {
					return "name", x.Op == token.NEQ
				}
			}
		}
	}
	return "", false
}

func checkC15(r *R) {
	r.Rule("engine-answer", "the errors reported for a file are the engine's complete answer for it")
	r.Rule("all-files", "every linted file is asked about, under the program it is linted with")
	r.Rule("all-errors", "every error of the file is reported once, and errors of other files are not")
	r.Rule("flag-gated", "errors of a kind are reported if and only if the request asks for this kind")
	r.Rule("error-members", "an error is reported with its own number, text, range and file")
	h := headless(r)
	if h == nil {
		return
	}
	c := &compErr{r: r, h: h, memo: map[VV]*diagList{}}
	if c.t2 = requestType(r); c.t2 == nil {
		return
	}
	flags := map[string]map[Origin]bool{
		"syntactic": h.payloadCells(c.t2, "report_syntactic"),
		"semantic":  h.payloadCells(c.t2, "report_semantic"),
	}
	for k, m := range flags {
		if !r.Need(len(m) > 0, "the reading of report_"+k) {
			return
		}
	}
	// the files that are linted
	type queueLoop struct {
		F    *Frame
		It   *Iter
		Coll map[Origin]bool
		N    Node
	}
	var queues []queueLoop
	for _, n := range h.Nodes {
		s, ok := n.I.(*ssa.Send)
		if !ok || n.F.Thread != h.G.Root || !isNamed(deref(s.X.Type()), pAst, "SourceFile") {
			continue
		}
		a := h.anchor(VV{n.F, s.X})
		fi := h.outerIter(a)
		if fi == nil || a.Path != "" {
			r.Bad("all-files", "queue filled in "+h.where(n), h.G.nodePos(n), "the files queued are not the elements of a list")
			continue
		}
		queues = append(queues, queueLoop{fi.F, fi.It, originSet(h.G.Origins(VV{fi.F, fi.It.Coll})), n})
	}
	if !r.Need(len(queues) > 0, "the queue of the files to lint") {
		return
	}
	// the reports
	type errLoop struct {
		kind  string // syntactic, semantic
		rep   []intReport
		d     Anchor
		inner *frameIter
		outer *frameIter
		list  *diagList
	}
	var loops []*errLoop
	for _, rep := range h.internalReports() {
		id := h.anchorP(rep.Arg, ".Id", 0)
		if id.Kind == "elem" || id.Kind == "const" {
			continue // problems of the project: C16
		}
		con := "report in " + h.where(rep.N)
		pos := h.G.nodePos(rep.N)
		d, ok := h.rangeDiag(h.anchorP(rep.Arg, ".Range", 0))
		if !ok || d.Kind != "elem" || d.Path != "" {
			r.Bad("error-members", con+": range", pos, "the range reported is not that of an engine diagnostic in a list")
			continue
		}
		inner := h.outerIter(d)
		if inner == nil {
			r.Bad("all-errors", con, pos, "the loop over the errors is not complete")
			continue
		}
		l := c.contents(VV{d.F, d.Coll})
		kind := map[string]string{"syn": "syntactic", "inc+sem": "semantic"}[l.key()]
		ok = r.Ob("engine-answer", con+": "+l.key(), l.why == "" && kind != "", pos, "not the engine's complete list of errors for the file: "+l.why+" ("+l.key()+")")
		if !ok {
			continue
		}
		file := l.files[0]
		same := true
		for _, f := range l.files {
			same = same && h.sameAnchor(f, file)
		}
		po := originSet(h.G.Origins(l.progs[0]))
		for _, p := range l.progs {
			same = same && sameOrigins(po, originSet(h.G.Origins(p)))
		}
		outer := h.outerIter(file)
		if outer == nil {
			// a file handed to a helper
			same = false
		} else {
			for _, x := range l.lists {
				if es := h.oneElem(x); es != nil {
					same = same && h.sameAnchor(h.anchor(*es), file)
					continue
				}
				same = same && h.sameColl(x, VV{outer.F, outer.It.Coll})
			}
		}
		if !r.Ob("engine-answer", con+": "+kind+" of one file", same && file.Path == "", pos, "the parts of the list are not about the same file of a list of files, or not from the same program") {
			continue
		}
		var el *errLoop
		for _, x := range loops {
			if x.kind == kind && x.inner.F == inner.F && x.inner.It.If == inner.It.If {
				el = x
			}
		}
		if el == nil {
			el = &errLoop{kind: kind, d: d, inner: inner, outer: outer, list: l}
			loops = append(loops, el)
		}
		el.rep = append(el.rep, rep)
		c.members(rep, d, file, outer, con+" ("+kind+")", pos)
	}
	r.Min("engine-answer", 8)
	r.Min("error-members", 16)
	used := map[string]bool{}
	for _, el := range loops {
		con := el.kind + " errors in " + fnName(el.inner.F.Fn)
		pos := h.W.pos(el.inner.It.If.Pos())
		reps := map[Node]bool{}
		for _, x := range el.rep {
			reps[x.N] = true
		}
		file := el.list.files[0]
		isRep := func(n Node) bool { return reps[n] }
		cond := func(kind string, other bool) Cut {
			return func(from Node, e Edge) bool {
				x, ok := from.I.(*ssa.If)
				if !ok {
					return false
				}
				k, when := h.fileCond(from.F, x.Cond, el.d, file)
				if k == "" || kind != "" && k != kind {
					return false
				}
				// the edge says "another file" when taken with truth value `when`
				saysOther := (e.Branch == 1) == when
				return saysOther != other
			}
		}
		why := h.iterEvery(el.inner.F, el.inner.It, isRep, cond("", false))
		if why == "" {
			hd := headerNode(el.inner.F, el.inner.It)
			for n := range reps {
				for m := range h.G.Reach(h.G.After(n), func(x Node) bool { return x == hd }, nil) {
					if reps[m] {
						why = "an error can be reported twice"
					}
				}
			}
		}
		r.Ob("all-errors", con, why == "", pos, why)
		be := Node{F: el.inner.F, I: el.inner.It.BodyEntry().Instrs[0]}
		hd := headerNode(el.inner.F, el.inner.It)
		why = ""
		guarded := false
		for n := range h.G.Reach([]Node{be}, func(x Node) bool { return x == hd }, nil) {
			if x, ok := n.I.(*ssa.If); ok {
				if k, _ := h.fileCond(n.F, x.Cond, el.d, file); k == "name" {
					guarded = true
				}
				if k, _ := h.fileCond(n.F, x.Cond, el.d, file); k != "" {
					for m := range h.G.Reach([]Node{be}, func(x Node) bool { return x == hd }, cond(k, true)) {
						if reps[m] {
							why = "an error of another file can be reported"
						}
					}
				}
			}
		}
		if !guarded {
			why = "errors of other files are not left out"
		}
		r.Ob("all-errors", con+": other files", why == "", pos, why)
		// the list is iterated for every file
		for k := range el.list.kinds {
			k := k
			some := func(from Node, e Edge) bool {
				x, ok := from.I.(*ssa.If)
				if !ok {
					return false
				}
				empty, ok := sumTest(from.F, x.Cond, func(v VV) bool {
					s, ok := v.V.Type().Underlying().(*types.Slice)
					if !ok || !isNamed(deref(s.Elem()), pAst, "Diagnostic") {
						return false
					}
					l := c.contents(v)
					if l.why != "" || len(l.files) == 0 || !h.sameAnchor(l.files[0], file) {
						return false
					}
					return l.kinds[k] || k == "sem" && l.kinds["semraw"]
				})
				return ok && (e.Branch == 1) == empty
			}
			why := h.iterEvery(el.outer.F, el.outer.It, func(n Node) bool { return n == hd }, some)
			if why == "" {
				why = h.iterEvery(el.outer.F, el.outer.It, nil, nil)
			}
			r.Ob("all-files", con+": "+k, why == "", pos, "not every file's errors are gone through: "+why)
		}
		// gating
		off := h.under(h.onlyWhen(flags[el.kind], true))
		for n := range reps {
			r.Ob("flag-gated", con+": off", !off.G.alive(n), pos, "reported although the request does not ask for "+el.kind+" errors")
		}
		// which linted files
		oc := originSet(h.G.Origins(VV{el.outer.F, el.outer.It.Coll}))
		for i, q := range queues {
			if !sameOrigins(oc, q.Coll) || !h.sameProgram(q.F, el.list.progs[0]) {
				continue
			}
			through := func(n Node) bool { return n == headerNode(el.outer.F, el.outer.It) }
			qh := headerNode(q.F, q.It)
			on := h.onlyWhen(flags[el.kind], false)
			toQ := func(n Node) bool { return n == qh }
			exit := Node{F: q.F, I: q.It.Exit().Instrs[0]}
			_, before := h.mustPass([]Node{h.Entry, exit}, through, toQ, on)
			after := false
			if !before {
				_, after = h.mustPass([]Node{exit}, through, func(n Node) bool {
					_, isRet := n.I.(*ssa.Return)
					return n == qh || isRet && n.F == h.G.Root
				}, on)
			}
			if r.Ob("flag-gated", fmt.Sprintf("%s: on, for the files queued in %s", con, callerChain(q.N)), before || after, pos, "files can be linted without their "+el.kind+" errors being reported although the request asks for them") {
				used[fmt.Sprint(el.kind, i)] = true
			} else {
				used[fmt.Sprint(el.kind, i)] = true
			}
		}
	}
	for i, q := range queues {
		for _, k := range []string{"syntactic", "semantic"} {
			r.Ob("all-files", k+" errors of the files queued in "+callerChain(q.N), used[fmt.Sprint(k, i)], h.G.nodePos(q.N), "no loop reports the "+k+" errors of these files")
		}
	}
	r.Min("all-errors", 8)
	r.Min("all-files", 10)
	r.Min("flag-gated", 8)
}

func sameOrigins(a, b map[Origin]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// sameProgram: the files queued in a frame are linted with the program.
func (h *Headless) sameProgram(q *Frame, p VV) bool {
	want := originSet(h.G.Origins(p))
	best, hit := -1, false
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !strings.HasSuffix(realPath(h.W, c), "Program.ForEachCheckerParallel") || len(c.Args) == 0 {
			continue
		}
		d := commonDepth(q, n.F)
		if d < best {
			continue
		}
		same := sameOrigins(want, originSet(h.G.Origins(VV{n.F, c.Args[0]})))
		if d > best {
			best, hit = d, same
		} else {
			hit = hit && same
		}
	}
	return hit
}

func commonDepth(a, b *Frame) int {
	m := map[*Frame]bool{}
	for f := a; f != nil; f = f.Parent {
		m[f] = true
	}
	for f := b; f != nil; f = f.Parent {
		if m[f] {
			return f.Depth
		}
	}
	return -1
}

// members: the error is reported as it is.
func (c *compErr) members(rep intReport, d, file Anchor, outer *frameIter, con, pos string) {
	r, h := c.r, c.h
	x, ok := h.codeDiag(h.anchorP(rep.Arg, ".Id", 0))
	r.Ob("error-members", con+": number", ok && h.sameAnchor(x, d), pos, "the id is not \"TS\" and the number of the error")
	x, ok = h.textDiag(h.anchorP(rep.Arg, ".Description", 0))
	r.Ob("error-members", con+": text", ok && h.sameAnchor(x, d), pos, "the description is not the text of the error")
	x, ok = h.rangeDiag(h.anchorP(rep.Arg, ".Range", 0))
	r.Ob("error-members", con+": range", ok && h.sameAnchor(x, d), pos, "the range is not that of the error")
	why := c.filePtr(h.anchorP(rep.Arg, ".FilePath", 0), func(a Anchor) bool {
		v, _, ok := h.method(a, pAst+".SourceFile.FileName")
		if !ok {
			return false
		}
		fa := h.anchor(v)
		if h.sameAnchor(fa, file) {
			return true
		}
		q, _, ok := h.method(fa, pAst+".Diagnostic.File")
		return ok && h.sameAnchor(h.anchor(q), d)
	}, outer)
	r.Ob("error-members", con+": file", why == "", pos, why)
}

// filePtr: a pointer to a variable of its own for each iteration, holding the name.
func (c *compErr) filePtr(a Anchor, name func(Anchor) bool, outer *frameIter) string {
	h := c.h
	al, ok := a.V.(*ssa.Alloc)
	if !ok || a.Path != "" {
		return "the file is not a variable of its own: " + a.String()
	}
	f := a.F
	if outer != nil && f == outer.F && !outer.It.Loop.Body[al.Block()] || outer != nil && f != outer.F && !inFrameTree(f, outer.F) {
		return "the variable holding the file's name is shared by the errors of several files"
	}
	ss := h.cellStores(VV{f, al}, "")
	if len(ss) == 0 {
		return "the file's name is never set"
	}
	for _, s := range ss {
		if s.Path != "" || !name(h.anchor(s.Val)) {
			return "the file named is not the one the error is in"
		}
	}
	return ""
}

// oneElem: the only element of a list written out.
func (h *Headless) oneElem(v VV) *VV {
	a := h.anchor(v)
	if es := variadic(a.V); len(es) == 1 && a.Path == "" {
		return &VV{a.F, es[0]}
	}
	return nil
}

// sumTest is lenTest, and knows that a sum of lengths is zero only if each of them is.
func sumTest(f *Frame, v ssa.Value, is func(VV) bool) (empty, ok bool) {
	if e, ok := lenTest(f, v, is); ok {
		return e, true
	}
	b, isB := v.(*ssa.BinOp)
	if !isB {
		return false, false
	}
	n, isC := constInt(b.Y)
	if !isC || n != 0 {
		return false, false
	}
	var has func(v ssa.Value) bool
	has = func(v ssa.Value) bool {
		if l := lenArg(v); l != nil {
			return is(VV{f, l})
		}
		s, ok := v.(*ssa.BinOp)
		return ok && s.Op == token.ADD && (has(s.X) || has(s.Y))
	}
	if !has(b.X) {
		return false, false
	}
	switch b.Op {
	case token.EQL, token.LEQ:
		return true, true
	case token.NEQ, token.GTR:
		return false, true
	}
	return false, false
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	suppressEnv = "OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS"
	pTspath     = tsgoPath + "/internal/tspath"
)

func init() {
	register("C16", "Problems of a project are reported and keep its files from being linted",
		"Property simulation of the main thread for each source of problems (configuration not parsed, faulty options, faulty program): with this source non-empty, those looked at before it empty and the others unknown, every path from it to the end of the iteration over the projects must enter a loop reporting a list converted from it one to one, exactly once, without leaving the iteration and without reaching the start of linting; the lists' emptiness is carried as facts. The same with the suppressing variable set, and with no problem at all. Reported members by provenance.",
		checkC16)
}

type projAn struct {
	r    *R
	h    *Headless
	loop frameIter // over the projects
	src  [4]map[Node]bool
	// values that hold the problems of a source
	val     func(n Node) (int, factKey)
	reports map[Node]int // header of a reporting loop
	convs   []*projRep
}

type projRep struct {
	rep   intReport
	d     Anchor // the diagnostic
	cf    *Frame
	ci    *Iter
	loop  *frameIter // the loop that reports
	value VV
	view  string
}

func isTsDiagList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(deref(s.Elem()), pAst, "Diagnostic")
}

func isInternalList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInternalT(s.Elem())
}

// source: which kind of problems the collection is: 1 configuration, 2 options, 3 program.
func (p *projAn) source(v VV) (int, string) {
	k := 0
	for _, o := range p.h.G.Origins(v) {
		n := 0
		switch x := o.V.(type) {
		case *ssa.Call:
			path := realPath(p.h.W, &x.Call)
			switch {
			case path == pTsopt+".GetParsedCommandLineOfConfigFile" && o.Path == "#1":
				n = 1
			case path == pTsopt+".GetParsedCommandLineOfConfigFile" && strings.Contains(o.Path, "#0") && strings.HasSuffix(o.Path, ".Errors"):
				n = 2
			case path == pComp+".Program.GetProgramDiagnostics" && o.Path == "":
				n = 3
			}
		case *ssa.Const:
			if x.Value == nil {
				continue
			}
		}
		if n == 0 {
			return 0, o.String()
		}
		if k != 0 && k != n {
			return -1, "several sources"
		}
		k = n
	}
	return k, ""
}

func checkC16(r *R) {
	r.Rule("reported", "problems of a project are reported, each once, and nothing else is")
	r.Rule("not-linted", "a project with problems is not linted; the others are")
	r.Rule("suppressed", "with the variable set, problems of options and programs are not reported and the project is linted")
	r.Rule("problem-members", "a problem is reported with its own text, range and file")
	h := headless(r)
	if h == nil {
		return
	}
	p := &projAn{r: r, h: h}
	parse := map[Node]bool{}
	for _, n := range h.Nodes {
		if c := callOf(n); c != nil && realPath(h.W, c) == pTsopt+".GetParsedCommandLineOfConfigFile" && n.F.Thread == h.G.Root {
			parse[n] = true
		}
	}
	if !r.Need(len(parse) > 0, "the parsing of project configurations") {
		return
	}
	for n := range parse {
		var found *frameIter
		b := n.I.Block()
		for f := n.F; f != nil && found == nil; f = f.Parent {
			if it := enclosingIter(f, b); it != nil {
				found = &frameIter{f, it}
				break
			}
			if f.Site != nil {
				b = f.Site.(ssa.Instruction).Block()
			}
		}
		if !r.Ob("not-linted", "loop over the projects", found != nil, h.G.nodePos(n), "a project's configuration is not parsed within a loop over all projects") {
			return
		}
		if p.loop.F != nil && (p.loop.F != found.F || p.loop.It.If != found.It.If) {
			r.Bad("not-linted", "loop over the projects", h.G.nodePos(n), "projects are loaded in several loops")
			return
		}
		p.loop = *found
	}
	newProg := map[Node]bool{}
	body := h.G.Reach([]Node{{F: p.loop.F, I: p.loop.It.BodyEntry().Instrs[0]}}, func(n Node) bool { return n == headerNode(p.loop.F, p.loop.It) }, nil)
	for n := range body {
		if c := callOf(n); c != nil && realPath(h.W, c) == pComp+".NewProgram" && p.inLoop(n) {
			newProg[n] = true
		}
	}
	if !r.Need(len(newProg) > 0, "the creation of programs") {
		return
	}
	p.src[1], p.src[2], p.src[3] = parse, parse, newProg

	// what is reported
	for _, rep := range h.internalReports() {
		c := "report in " + h.where(rep.N)
		pos := h.G.nodePos(rep.N)
		if d, ok := h.rangeDiag(h.anchorP(rep.Arg, ".Range", 0)); ok && d.Kind == "elem" {
			k, _ := p.source(VV{d.F, d.Coll})
			if k == 0 {
				continue // an error of a file: C15
			}
			fi := h.outerIter(d)
			if !r.Ob("reported", c, fi != nil && d.Path == "", pos, "the loop over the problems is not complete") {
				continue
			}
			p.convs = append(p.convs, &projRep{rep: rep, d: d, cf: fi.F, ci: fi.It, loop: fi, value: rep.Arg})
			continue
		}
		a := h.anchor(rep.Arg)
		fi := h.outerIter(a)
		if !r.Ob("reported", c, fi != nil && a.Path == "", pos, "what is reported is not a problem from a list: "+a.String()) {
			continue
		}
		conv, lits, why := h.lists(VV{fi.F, fi.It.Coll}, nil)
		if why == "" && len(conv) == 0 && noElems(lits) {
			continue // nothing is ever in it
		}
		if !r.Ob("reported", c+": list", why == "" && len(conv) > 0, pos, "the list reported is not a one-to-one conversion of a list of problems: "+why) {
			continue
		}
		for _, l := range lits {
			r.Ob("reported", c+": nothing else", len(l) == 0, pos, "a fixed list is reported")
		}
		for _, cv := range conv {
			vs, rest := cv.partVals("")
			if len(vs) == 0 {
				// written member by member: not resolved further
				p.convs = append(p.convs, &projRep{rep: rep, cf: cv.F, ci: cv.It, loop: fi})
				continue
			}
			for i, v := range vs {
				if rest[i] != "" {
					continue
				}
				d, ok := h.rangeDiag(h.anchorP(v, ".Range", 0))
				x := &projRep{rep: rep, cf: cv.F, ci: cv.It, loop: fi, value: v}
				if ok {
					x.d = d
				}
				p.convs = append(p.convs, x)
			}
		}
	}
	seen := map[string]bool{}
	for _, x := range p.convs {
		k, why := p.source(VV{x.cf, x.ci.Coll})
		con := fmt.Sprintf("problems gone through in %s (%s)", fnName(x.cf.Fn), [...]string{"several", "?", "configuration", "options", "program"}[k+1])
		pos := h.W.pos(x.ci.If.Pos())
		if !r.Ob("reported", con, k != 0, pos, "the list is not the engine's complete list of problems: "+why) {
			continue
		}
		seen[fmt.Sprint(k)] = true
		p.members(x, con, pos)
		// every problem once
		reps := func(n Node) bool {
			for _, y := range p.convs {
				if y.rep.N == n && y.loop.F == x.loop.F && y.loop.It.If == x.loop.It.If {
					return true
				}
			}
			return false
		}
		why = h.iterEvery(x.loop.F, x.loop.It, reps, nil)
		if why == "" {
			hd := headerNode(x.loop.F, x.loop.It)
			for m := range h.G.Reach(h.G.After(x.rep.N), func(n Node) bool { return n == hd }, nil) {
				if reps(m) {
					why = "a problem can be reported twice"
				}
			}
		}
		r.Ob("reported", con+": each once", why == "", pos, why)
		if k == 3 || k == -1 {
			for _, o := range h.G.Origins(VV{x.cf, x.ci.Coll}) {
				c, ok := o.V.(*ssa.Call)
				if !ok || realPath(h.W, &c.Call) != pComp+".Program.GetProgramDiagnostics" {
					continue
				}
				good := true
				for _, q := range h.G.Origins(VV{o.F, c.Call.Args[0]}) {
					i, ok := q.V.(ssa.Instruction)
					good = good && ok && newProg[Node{F: q.F, I: i}]
				}
				r.Ob("reported", con+": program", good, pos, "these are not the problems of the program that is linted")
			}
		}
	}
	if !r.Need(len(p.convs) > 0, "the reports of problems of projects") {
		return
	}
	// the order of looking at them, and what follows
	if !r.Need(p.envTests() > 0, "the variable that suppresses problems") {
		return
	}
	for _, sup := range []bool{false, true} {
		for i := 0; i <= 3; i++ {
			p.run(i, sup)
		}
	}
	r.Min("reported", 12)
	r.Min("not-linted", 7)
	r.Min("suppressed", 2)
	r.Min("problem-members", 12)
}

func noElems(ls [][]VV) bool {
	for _, l := range ls {
		if len(l) > 0 {
			return false
		}
	}
	return true
}

// inLoop: the node belongs to the body of the loop over the projects.
func (p *projAn) inLoop(n Node) bool {
	f, b := n.F, n.I.Block()
	for f != nil && f != p.loop.F {
		if f.Site == nil {
			return false
		}
		b = f.Site.(ssa.Instruction).Block()
		f = f.Parent
	}
	return f != nil && p.loop.It.Loop.Body[b]
}

func isEnvGet(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleePath(&c.Call) != "os.Getenv" {
		return false
	}
	s, ok := constStr(c.Call.Args[0])
	return ok && s == suppressEnv
}

// envCond: the condition tells whether the suppressing variable is set to "true".
func (p *projAn) envCond(f *Frame, v ssa.Value, depth int) (pol, ok bool) {
	if depth > 8 || !isBoolT(v.Type()) {
		return false, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			q, ok := p.envCond(f, x.X, depth+1)
			return !q, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, isC := constStr(s[1]); isC && c == "true" {
					all := true
					os := p.h.G.Origins(VV{f, s[0]})
					for _, o := range os {
						all = all && isEnvGet(o.V) && o.Path == ""
					}
					if all && len(os) > 0 {
						return x.Op == token.EQL, true
					}
				}
				if b, isB := constBool(s[1]); isB {
					q, ok := p.envCond(f, s[0], depth+1)
					return q == (b == (x.Op == token.EQL)), ok
				}
			}
		}
		return false, false
	}
	os := p.h.G.Origins(VV{f, v})
	for i, o := range os {
		var q, k bool
		if vs := p.onceVals(o); len(vs) == 1 {
			q, k = p.envCond(vs[0].F, vs[0].V, depth+1)
		} else {
			if o.V == v && o.F == f || o.Path != "" {
				return false, false
			}
			q, k = p.envCond(o.F, o.V, depth+1)
		}
		if !k || i > 0 && q != pol {
			return false, false
		}
		pol = q
	}
	return pol, len(os) > 0
}

// onceVals: what a package-level variable, set by its initialiser only, holds or (a function
// computing its value once) returns.
func (p *projAn) onceVals(o Origin) []VV {
	h := p.h
	initOf := func(g *ssa.Global) []VV {
		for _, f := range h.W.allFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && f.Synthetic != "package initializer" {
						return nil
					}
				}
			}
		}
		return h.globalInit(g)
	}
	if g, ok := o.V.(*ssa.Global); ok && o.Path == "*" {
		return initOf(g)
	}
	c, ok := o.V.(*ssa.Call)
	if !ok || o.Path != "" || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
		return nil
	}
	var r []VV
	for _, x := range h.G.Origins(VV{o.F, c.Call.Value}) {
		g, ok := x.V.(*ssa.Global)
		if !ok || x.Path != "*" {
			return nil
		}
		for _, v := range initOf(g) {
			k, ok := v.V.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleePath(&k.Call), "sync.OnceValue") {
				return nil
			}
			fn, ok := k.Call.Args[0].(*ssa.Function)
			if !ok {
				return nil
			}
			fr := &Frame{Fn: fn}
			fr.Thread = fr
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					r = append(r, VV{fr, ret.Results[0]})
				}
			}
		}
	}
	return r
}

func (p *projAn) envTests() int {
	n := 0
	for _, x := range p.h.Nodes {
		if i, ok := x.I.(*ssa.If); ok {
			if _, ok := p.envCond(x.F, i.Cond, 0); ok {
				n++
			}
		}
	}
	return n
}

// ---- paths ---------------------------------------------------------------------

// run follows the main thread with the problems of source i (0: none) there. The facts about
// lists: "c:0" empty, "c:1" with all the problems of source i, "nonnil" not empty.
func (p *projAn) run(i int, sup bool) {
	r, h := p.r, p.h
	con := [...]string{"a project without problems", "a configuration that cannot be parsed", "faulty options", "a faulty program"}[i]
	if sup {
		con += ", problems suppressed"
	}
	report := !sup && i > 0 || i == 1
	hd := headerNode(p.loop.F, p.loop.It)
	starts := h.lintStarts(r)
	queue := map[Node]bool{}
	for _, n := range h.Nodes {
		if s, ok := n.I.(*ssa.Send); ok && n.F.Thread == h.G.Root && isNamed(deref(s.X.Type()), pAst, "SourceFile") {
			starts[n] = true
			if it := enclosingIter(n.F, n.I.Block()); it != nil {
				queue[headerNode(n.F, it)] = true
			}
		}
	}
	if !r.Need(len(queue) > 0, "the queue of the files to lint") {
		return
	}
	repLoop := map[Node]bool{}
	repNode := map[Node]bool{}
	for _, x := range p.convs {
		repLoop[Node{F: x.loop.F, I: x.loop.It.If}] = true
		repNode[x.rep.N] = true
	}
	ifs := map[Node]*Iter{}
	rule := "not-linted"
	if sup && i != 1 {
		rule = "suppressed"
	}
	bad := map[string]bool{}
	fail := func(n Node, why string) bool {
		if !bad[why] {
			bad[why] = true
			r.Bad(rule, con, h.G.nodePos(n), why)
		}
		return false
	}
	sim := &Sim{G: h.G, SkipThread: true}
	sim.Track = func(t types.Type) bool {
		return trackDefault(t) || isTsDiagList(t) || isInternalList(t) || isNamed(deref(t), pComp, "Program")
	}
	linted := 0
	reported := 0
	// TS: "" not at a project, "S" problems there, "R" reported, "L" (no problems) about to be linted
	sim.Step = func(n Node, st *SState) bool {
		if n == hd {
			switch st.TS {
			case "S":
				if report {
					return fail(n, "the problems may not be reported")
				}
				return fail(n, "the project may not be linted")
			case "L":
				return fail(n, "the project may not be linted")
			}
			st.TS = ""
		}
		if n.F == p.loop.F && !p.loop.It.Loop.Body[n.I.Block()] && !panics(n.I.Block()) && (st.TS == "S" || st.TS == "R") {
			return fail(n, "the other projects are not linted")
		}
		if starts[n] && report && (st.TS == "S" || st.TS == "R") {
			return fail(n, "the project is linted nevertheless")
		}
		if queue[n] && (st.TS == "S" && !report || st.TS == "L") {
			linted++
			st.TS = ""
		}
		if repNode[n] && i == 0 {
			return fail(n, "something is reported")
		}
		if p.src[1][n] && i == 0 {
			st.TS = "L"
		}
		return true
	}
	iterOf := func(n Node) *Iter {
		if it, ok := ifs[n]; ok {
			return it
		}
		var res *Iter
		for _, it := range itersIn(n.F.Fn) {
			if it.If == n.I {
				res = it
			}
		}
		ifs[n] = res
		return res
	}
	val := func(k int) string {
		switch {
		case k == 0:
			return ""
		case i == 0 || k < i:
			return "c:0"
		case k == i:
			return "c:1"
		}
		return ""
	}
	nonempty := func(f string) bool { return f == "c:1" || f == "nonnil" }
	empty := func(f string) bool { return f == "c:0" || f == "nil" }
	sim.Branch = func(from Node, e Edge, st *SState) bool {
		if from.F.Thread != h.G.Root {
			return true
		}
		x := from.I.(*ssa.If)
		if pol, ok := p.envCond(from.F, x.Cond, 0); ok && (e.Branch == 1) != (pol == sup) {
			return false
		}
		fact := ""
		em, ok := lenTest(from.F, x.Cond, func(v VV) bool {
			if !isTsDiagList(v.V.Type()) && !isInternalList(v.V.Type()) {
				return false
			}
			fact = sim.Fact(st, v.F, v.V)
			return nonempty(fact) || empty(fact)
		})
		if ok && ((e.Branch == 1) == em) != empty(fact) {
			return false
		}
		if it := iterOf(from); it != nil && it.Kind == "slice" && (isTsDiagList(it.Coll.Type()) || isInternalList(it.Coll.Type())) {
			key := factKey{VV{from.F, x.Cond}, -2}
			f := sim.Fact(st, from.F, it.Coll)
			into := e.To.F == from.F && e.To.I.Block() == it.BodyEntry()
			if into {
				if empty(f) {
					return false
				}
				if f == "c:1" && repLoop[from] && st.facts[key] == "" {
					if !report {
						return fail(from, "the problems are reported although they are suppressed")
					}
					if st.TS == "R" {
						return fail(from, "the problems can be reported twice")
					}
					reported++
					st.TS = "R"
				}
				sim.set(st, key, "c:in")
			} else {
				if nonempty(f) && st.facts[key] == "" {
					return false
				}
				sim.set(st, key, "")
			}
		}
		return true
	}
	sim.Edge = func(from Node, e Edge, st *SState) bool {
		if from.F.Thread != h.G.Root {
			return true
		}
		set := func(v ssa.Value, f string) {
			sim.set(st, factKey{VV{from.F, v}, -1}, f)
		}
		switch x := from.I.(type) {
		case *ssa.Call:
			switch path := realPath(h.W, &x.Call); path {
			case pTsopt + ".GetParsedCommandLineOfConfigFile":
				sim.set(st, factKey{VV{from.F, x}, 1}, val(1))
				if i == 1 || i == 2 {
					st.TS = "S"
				}
			case pComp + ".NewProgram":
				set(x, "nonnil")
				if i == 3 && p.src[3][from] {
					st.TS = "S"
				}
			case pComp + ".Program.GetProgramDiagnostics":
				set(x, val(3))
			case "slices.Clone", "slices.Clip", pComp + ".SortAndDeduplicateDiagnostics":
				set(x, sim.Fact(st, from.F, x.Call.Args[0]))
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && sim.tracked(x.Type()) {
				f := sim.Fact(st, from.F, x.Call.Args[0])
				g := ""
				if len(x.Call.Args) > 1 {
					g = sim.Fact(st, from.F, x.Call.Args[1])
				}
				if es := variadic(x.Call.Args[1]); len(es) > 0 {
					g = "nonnil"
					// an element for each problem
					if it := enclosingIter(from.F, x.Block()); it != nil && it.Kind == "slice" && sim.Fact(st, from.F, it.Coll) == "c:1" {
						g = "c:1"
					}
				}
				switch {
				case f == "c:1" || g == "c:1":
					set(x, "c:1")
				case nonempty(f) || nonempty(g):
					set(x, "nonnil")
				case empty(f) && empty(g):
					set(x, "c:0")
				default:
					set(x, "")
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isTsDiagList(x.Type()) {
				if k, _ := p.source(VV{from.F, x}); k == 2 {
					set(x, val(2))
				}
			}
		case *ssa.MakeSlice:
			if sim.tracked(x.Type()) {
				if n, ok := constInt(x.Len); ok && n == 0 {
					set(x, "c:0")
				} else if l := lenArg(x.Len); l != nil {
					set(x, sim.Fact(st, from.F, l))
				} else {
					set(x, "")
				}
			}
		case *ssa.Slice:
			if sim.tracked(x.Type()) {
				if x.Low == nil && x.High == nil {
					if al, ok := x.X.(*ssa.Alloc); ok {
						if es, ok := literalElems(from.F, al); ok && len(es) == 0 {
							set(x, "c:0")
						} else {
							set(x, "nonnil")
						}
					} else {
						set(x, sim.Fact(st, from.F, x.X))
					}
				} else {
					set(x, "")
				}
			}
		}
		return true
	}
	sim.Run([]Node{h.Entry}, &SState{})
	if sim.Trunc {
		r.Bad(rule, con, "-", "too many states")
		return
	}
	if len(bad) > 0 {
		return
	}
	if report {
		r.Ob("reported", con, reported > 0, "-", "the problems are not reported")
	} else {
		r.Ob(rule, con+": linted", linted > 0, "-", "the project is never linted")
	}
	r.Ob(rule, con, true, "-", "")
}

// ---- members ---------------------------------------------------------------------

func (p *projAn) members(x *projRep, con, pos string) {
	r, h := p.r, p.h
	if x.value.V == nil || x.d.V == nil {
		r.Bad("problem-members", con+": range", pos, "the range reported is not that of the problem")
		return
	}
	cv := &converted{F: x.cf, It: x.ci}
	r.Ob("problem-members", con+": range", cv.source(x.d, ""), pos, "the range reported is not that of the problem")
	own := func(a Anchor) bool { return h.sameAnchor(a, x.d) }
	r.Ob("problem-members", con+": text", p.text(x.value, ".Help", own, 0), pos, "the text reported is not that of the problem")
	for _, m := range []string{".Id", ".Description"} {
		a := h.anchorP(x.value, m, 0)
		s, ok := constStr(a.V)
		r.Ob("problem-members", con+": "+strings.ToLower(m[1:]), ok && s != "" && (m != ".Id" || s == "tsconfig-error"), pos, "a problem of a project is not marked as one")
	}
	a := h.anchorP(x.value, ".FilePath", 0)
	al, ok := a.V.(*ssa.Alloc)
	if !ok || a.Path != "" {
		r.Bad("problem-members", con+": file", pos, "the file is not a variable of its own: "+a.String())
		return
	}
	if a.F == x.cf && !x.ci.Loop.Body[al.Block()] || a.F != x.cf && !inFrameTree(a.F, x.cf) {
		r.Bad("problem-members", con+": file", pos, "the variable holding the file's name is shared by several problems")
		return
	}
	// where the variable's address is handed on
	use := Node{}
	for _, s := range h.cellStores(x.root(h), ".FilePath") {
		for _, o := range h.G.Origins(s.Val) {
			if o.V == ssa.Value(al) && o.F == a.F {
				use = s.Node
			}
		}
	}
	if use.I == nil {
		use = x.rep.N
	}
	for _, none := range []bool{false, true} {
		v := h.under(p.fileIs(x, none))
		why := ""
		ss := v.cellStores(VV{a.F, al}, "")
		last, _ := v.reachingOf(use, ss)
		if len(last) == 0 {
			why = "the file's name is not set"
		}
		for _, s := range last {
			if s.Path != "" {
				why = "the file's name is set in parts"
				continue
			}
			for _, o := range v.G.Origins(s.Val) {
				if none {
					if !p.isConfig(v, o) {
						why = "without a file, the problem is not reported for the configuration file: " + o.String()
					}
					continue
				}
				oa := Anchor{Kind: "call", F: o.F, V: o.V, Path: o.Path}
				f, _, ok := v.method(oa, pAst+".SourceFile.FileName")
				if ok {
					var q VV
					q, _, ok = v.method(v.anchor(f), pAst+".Diagnostic.File")
					ok = ok && own(v.anchor(q))
				}
				if !ok {
					why = "the problem is not reported for the file it is in: " + o.String()
				}
			}
		}
		name := "own file"
		if none {
			name = "no file"
		}
		r.Ob("problem-members", con+": "+name, why == "", pos, why)
	}
}

// root: the variable in which the reported diagnostic is put together (if there is one).
func (x *projRep) root(h *Headless) VV {
	v := x.value
	for i := 0; i < 4; i++ {
		f, y := h.throughLocal(v)
		if u, ok := y.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok {
				return VV{f, al}
			}
		}
		if y == v.V {
			break
		}
		v = VV{f, y}
	}
	return v
}

// fileIs cuts what happens only to problems without (with) a named file.
func (p *projAn) fileIs(x *projRep, none bool) Cut {
	h := p.h
	fileOf := func(v VV) bool {
		q, _, ok := h.method(h.anchor(v), pAst+".Diagnostic.File")
		return ok && h.sameAnchor(h.anchor(q), x.d)
	}
	nameOf := func(v VV) bool {
		q, _, ok := h.method(h.anchor(v), pAst+".SourceFile.FileName")
		return ok && fileOf(q)
	}
	return func(from Node, e Edge) bool {
		i, ok := from.I.(*ssa.If)
		if !ok {
			return false
		}
		c, val := i.Cond, e.Branch == 1
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, val = u.X, !val
		}
		b, ok := c.(*ssa.BinOp)
		if !ok {
			return false
		}
		for _, s := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			absent := false
			switch {
			case isNilConst(s[1]) && fileOf(VV{from.F, s[0]}):
				absent = (b.Op == token.EQL) == val
			case isEmptyStr(s[1]) && nameOf(VV{from.F, s[0]}):
				absent = (b.Op == token.EQL) == val
			case lenArg(s[0]) != nil && nameOf(VV{from.F, lenArg(s[0])}):
				n, ok := constInt(s[1])
				if !ok || n != 0 || b.X != s[0] {
					continue
				}
				absent = (b.Op == token.EQL || b.Op == token.LEQ) == val
			default:
				continue
			}
			if b.Op != token.EQL && b.Op != token.NEQ && b.Op != token.GTR && b.Op != token.LEQ {
				continue
			}
			if !none {
				return absent // it has a file with a name
			}
			// without a file, or with one without a name: the name test may not be reached, but
			// never says there is one; a nil test may go either way
			if isNilConst(s[1]) {
				return false
			}
			return !absent
		}
		return false
	}
}

func isEmptyStr(v ssa.Value) bool {
	s, ok := constStr(v)
	return ok && s == ""
}

// isConfig: the path of the project's configuration file.
func (p *projAn) isConfig(h *Headless, o Origin) bool {
	same := func(v VV) bool {
		for _, q := range h.G.Origins(v) {
			if !p.isConfig(h, q) {
				return false
			}
		}
		return true
	}
	if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
		path := realPath(h.W, &c.Call)
		switch path {
		case pTspath + ".ResolvePath":
			es := variadic(c.Call.Args[1])
			return len(es) == 1 && same(VV{o.F, es[0]})
		case pTspath + ".NormalizePath", pTspath + ".NormalizeSlashes", pTspath + ".GetNormalizedAbsolutePath":
			return same(VV{o.F, c.Call.Args[0]})
		}
	}
	// the key of the loop over the projects, as the engine is asked for
	for n := range p.src[1] {
		for _, q := range p.h.G.Origins(VV{n.F, callOf(n).Args[0]}) {
			if q == o {
				return true
			}
		}
	}
	return false
}

// text: the text of the problem, possibly followed by something fixed.
func (p *projAn) text(v VV, path string, own func(Anchor) bool, depth int) bool {
	h := p.h
	if depth > 6 {
		return false
	}
	os := h.G.OriginsPath(v, path)
	for _, o := range os {
		if o.Path != "" {
			return false
		}
		switch x := o.V.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD && p.text(VV{o.F, x.X}, "", own, depth+1) && p.fixed(VV{o.F, x.Y}) {
				continue
			}
		case *ssa.Call:
			if d, ok := h.textDiag(Anchor{Kind: "call", F: o.F, V: x}); ok && own(d) {
				continue
			}
		}
		return false
	}
	return len(os) > 0
}

func (p *projAn) fixed(v VV) bool {
	for _, o := range p.h.G.Origins(v) {
		if _, ok := constStr(o.V); !ok {
			return false
		}
	}
	return true
}

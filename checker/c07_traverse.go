package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Every syntax node is entered once and left once, around its children",
		"Path enumeration over the visitor functions of the traversal (found from the ForEachChild call on the file). Every path of a visitor is turned into a sequence of events: listeners dispatched for a kind and a node, a child visited by a visitor, ForEachChild. Conditions on node kinds are kept per path. For every path and every kind it is compatible with, the sequence must be enter, children, exit, properly nested, with the pattern kinds where they belong, and the children visited one by one must be all those the kind's own ForEachChild (typescript-go source) visits, in that order and by the visitor its position asks for.",
		checkC07)
}

// ---- symbolic path enumeration ---------------------------------------------

type tEvent struct {
	Op   string // "D" dispatch, "V" visit, "L" visit every element, "E" ForEachChild
	Kind string // D: kind expression
	Node string // node expression
	Vis  *tVisitor
	Pos  token.Pos
}

func (e tEvent) String() string {
	switch e.Op {
	case "D":
		return "dispatch(" + e.Kind + ", " + e.Node + ")"
	case "E":
		return e.Node + ".ForEachChild(" + e.Vis.name() + ")"
	}
	return e.Op + ":" + e.Vis.name() + "(" + e.Node + ")"
}

type tVisitor struct {
	Fn     *ssa.Function
	Bind   []VV
	Consts map[int]bool // constant bool arguments
	NodeAt int
	Paths  []*tPath
	Class  string // "P" pattern, "N" ordinary
	ID     string
	Root   bool
}

// alias: a visitor that only hands its node to another one.
func (v *tVisitor) alias() *tVisitor {
	var w *tVisitor
	for _, p := range v.Paths {
		if len(p.Ev) != 1 || p.Ev[0].Op != "V" || p.Ev[0].Node != "n" || p.Ev[0].Vis == v || w != nil && w != p.Ev[0].Vis || v.Fn.Signature.Results().Len() > 0 && p.Ret != "false" {
			return nil
		}
		w = p.Ev[0].Vis
	}
	return w
}

func (v *tVisitor) name() string {
	s := fnName(v.Fn)
	var ks []int
	for k := range v.Consts {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		s += fmt.Sprintf("[%d=%v]", k, v.Consts[k])
	}
	return s
}

type kindSet struct {
	neg bool
	m   map[int64]bool
}

func (k kindSet) has(v int64) bool { return k.m[v] != k.neg }
func (k kindSet) and(v int64, eq bool) (kindSet, bool) {
	if eq {
		if !k.has(v) {
			return k, false
		}
		return kindSet{false, map[int64]bool{v: true}}, true
	}
	m := map[int64]bool{}
	for x := range k.m {
		m[x] = true
	}
	if k.neg {
		m[v] = true
		return kindSet{true, m}, true
	}
	delete(m, v)
	return kindSet{false, m}, len(m) > 0
}

type tPath struct {
	Ev     []tEvent
	Kinds  map[string]kindSet
	Cond   map[string]bool
	Ret    string
	As     map[string]string // node expression -> struct it was asserted to
	PosEnd token.Pos
}

func (p *tPath) clone() *tPath {
	q := &tPath{Ev: append([]tEvent(nil), p.Ev...), Kinds: map[string]kindSet{}, Cond: map[string]bool{}, As: map[string]string{}}
	for k, v := range p.Kinds {
		q.Kinds[k] = v
	}
	for k, v := range p.Cond {
		q.Cond[k] = v
	}
	for k, v := range p.As {
		q.As[k] = v
	}
	return q
}

type tFrame struct {
	f    *Frame
	fn   *ssa.Function
	env  map[ssa.Value]string
	up   *tFrame
	skip map[*ssa.BasicBlock]bool // loop headers being summarised
}

type tInterp struct {
	h        *Headless
	disp     map[*ssa.Function]bool
	visitors map[*ssa.Function]bool
	known    map[string]*tVisitor
	queue    []*tVisitor
	steps    int
	kindVal  map[string]int64
	opaqueOn map[*ssa.Function]bool // functions treated as visitors while probing
}

type tErr struct {
	msg   string
	pos   token.Pos
	cycle []*ssa.Function
}

func (t *tInterp) fail(pos token.Pos, f string, a ...any) {
	panic(tErr{msg: fmt.Sprintf(f, a...), pos: pos})
}

func (t *tInterp) val(fr *tFrame, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.Bool {
			return x.Value.String()
		}
		return "#" + x.Value.ExactString()
	case *ssa.ChangeType:
		return t.val(fr, x.X)
	case *ssa.Convert:
		return t.val(fr, x.X)
	case *ssa.MakeInterface:
		return t.val(fr, x.X)
	}
	if s, ok := fr.env[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.FreeVar:
		return t.outer(fr, x)
	}
	return fmt.Sprintf("?%s.%s.%d", fnName(fr.fn), v.Name(), fr.f.ID)
}

// outer: a captured variable of an interpreted function: the value is symbolic when its cell holds one.
func (t *tInterp) outer(fr *tFrame, x *ssa.FreeVar) string {
	for i, fv := range fr.fn.FreeVars {
		if fv == x && i < len(fr.f.Bind) {
			b := fr.f.Bind[i]
			for up := fr.up; up != nil; up = up.up {
				if up.f == b.F {
					return t.val(up, b.V)
				}
			}
			return fmt.Sprintf("?bind%d.%s", b.F.ID, b.V.Name())
		}
	}
	return "?free." + x.Name()
}

func capName(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func addKind(s string, d int64) string {
	base, off := s, int64(0)
	if i := strings.LastIndex(s, "+"); i >= 0 && !strings.HasPrefix(s, "#") {
		if n, err := strconv.ParseInt(s[i+1:], 10, 64); err == nil {
			base, off = s[:i], n
		}
	}
	if strings.HasPrefix(s, "#") {
		if n, err := strconv.ParseInt(s[1:], 10, 64); err == nil {
			return "#" + strconv.FormatInt(n+d, 10)
		}
	}
	if off+d == 0 {
		return base
	}
	return base + "+" + strconv.FormatInt(off+d, 10)
}

func isEmbedded(x ssa.Value) bool {
	v, _, ok := fieldOf(x)
	return ok && v.Embedded()
}

// run interprets block b of fr from instruction i on.
func (t *tInterp) run(fr *tFrame, b, prev *ssa.BasicBlock, p *tPath, k func(*tPath, []string)) {
	if t.steps++; t.steps > 200000 {
		t.fail(fr.fn.Pos(), "too many paths in %s", fnName(fr.fn))
	}
	if prev != nil || len(b.Preds) > 0 {
		// loops
		if it := t.iterAt(fr.fn, b); it != nil && !fr.skip[b] {
			t.loop(fr, it, prev, p, k)
			return
		}
		for _, l := range loopsOf(fr.fn) {
			if l.Header == b && !fr.skip[b] {
				t.fail(b.Instrs[0].Pos(), "a loop of %s is not a plain loop over a list", fnName(fr.fn))
			}
		}
	}
	// phis are read together
	var ph []string
	for _, in := range b.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := "?phi"
		for i, pr := range b.Preds {
			if pr == prev {
				s = t.val(fr, x.Edges[i])
			}
		}
		ph = append(ph, s)
	}
	env := fr.env
	if len(ph) > 0 {
		env = map[ssa.Value]string{}
		for a, v := range fr.env {
			env[a] = v
		}
		for i, s := range ph {
			env[b.Instrs[i].(*ssa.Phi)] = s
		}
		fr = &tFrame{fr.f, fr.fn, env, fr.up, fr.skip}
	}
	t.instrs(fr, b, len(ph), p, k)
}

func (t *tInterp) iterAt(f *ssa.Function, b *ssa.BasicBlock) *Iter {
	for _, it := range itersIn(f) {
		if it.Loop.Header == b {
			return it
		}
	}
	return nil
}

func (fr *tFrame) with(v ssa.Value, s string) *tFrame {
	env := make(map[ssa.Value]string, len(fr.env)+1)
	for a, x := range fr.env {
		env[a] = x
	}
	env[v] = s
	return &tFrame{fr.f, fr.fn, env, fr.up, fr.skip}
}

func (t *tInterp) loop(fr *tFrame, it *Iter, prev *ssa.BasicBlock, p *tPath, k func(*tPath, []string)) {
	if it.Kind != "slice" {
		t.fail(it.If.Pos(), "a loop of %s does not run over a list of nodes", fnName(fr.fn))
	}
	skip := map[*ssa.BasicBlock]bool{it.Loop.Header: true}
	for b := range fr.skip {
		skip[b] = true
	}
	coll := strings.TrimSuffix(t.val(fr, it.Coll), ".Nodes")
	body := &tFrame{fr.f, fr.fn, fr.env, fr.up, skip}
	body = body.with(it.Index, "@i")
	var sum *[]tEvent
	q := p.clone()
	q.Ev = nil
	var walk func(b, prev *ssa.BasicBlock, x *tFrame, q *tPath)
	walk = func(b, prev *ssa.BasicBlock, x *tFrame, q *tPath) {
		if b == it.Loop.Header {
			if sum == nil {
				e := append([]tEvent{}, q.Ev...)
				sum = &e
			} else if fmt.Sprint(*sum) != fmt.Sprint(q.Ev) {
				t.fail(it.If.Pos(), "the loop of %s treats elements differently", fnName(fr.fn))
			}
			return
		}
		if !it.Loop.Body[b] {
			t.fail(b.Instrs[0].Pos(), "the loop over %s can be left early", coll)
		}
		t.block(x, b, prev, q, func(q *tPath, x *tFrame, nb *ssa.BasicBlock, rets []string) {
			if nb == nil {
				t.fail(b.Instrs[len(b.Instrs)-1].Pos(), "the loop over %s can be left early", coll)
			}
			walk(nb, b, x, q)
		})
	}
	walk(it.BodyEntry(), it.If.Block(), body, q)
	r := p.clone()
	if sum != nil {
		for _, e := range *sum {
			if e.Op != "V" || e.Node != coll+"[]" {
				t.fail(e.Pos, "the loop over %s does %s", coll, e)
			}
			e.Op, e.Node = "L", coll
			r.Ev = append(r.Ev, e)
		}
	}
	// after the loop
	out := &tFrame{fr.f, fr.fn, fr.env, fr.up, fr.skip}
	t.run(out, it.Exit(), it.If.Block(), r, k)
}

// instrs runs the rest of a block and continues with its successors.
func (t *tInterp) instrs(fr *tFrame, b *ssa.BasicBlock, i int, p *tPath, k func(*tPath, []string)) {
	t.rest(fr, b, i, p, func(p *tPath, fr *tFrame, nb *ssa.BasicBlock, rets []string) {
		if nb == nil {
			k(p, rets)
			return
		}
		t.run(fr, nb, b, p, k)
	})
}

// block runs one block (used inside loop summaries, where nested loops are not followed).
func (t *tInterp) block(fr *tFrame, b, prev *ssa.BasicBlock, p *tPath, k func(*tPath, *tFrame, *ssa.BasicBlock, []string)) {
	if t.steps++; t.steps > 200000 {
		t.fail(fr.fn.Pos(), "too many paths in %s", fnName(fr.fn))
	}
	for _, l := range loopsOf(fr.fn) {
		if l.Header == b && !fr.skip[b] {
			t.fail(b.Instrs[0].Pos(), "nested loop in %s", fnName(fr.fn))
		}
	}
	n := 0
	for _, in := range b.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for j, pr := range b.Preds {
			if pr == prev {
				fr = fr.with(x, t.val(fr, x.Edges[j]))
			}
		}
	}
	t.rest(fr, b, n, p, k)
}

func (t *tInterp) rest(fr *tFrame, b *ssa.BasicBlock, i int, p *tPath, k func(*tPath, *tFrame, *ssa.BasicBlock, []string)) {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.FieldAddr, *ssa.Field:
			v := x.(ssa.Value)
			fld, base, _ := fieldOf(v)
			s := t.val(fr, base)
			if !isEmbedded(v) {
				s += "." + capName(fld.Name())
			}
			fr = fr.with(v, s)
		case *ssa.IndexAddr:
			if ix := t.val(fr, x.Index); ix == "@i" {
				fr = fr.with(x, strings.TrimSuffix(t.val(fr, x.X), ".Nodes")+"[]")
			}
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				if s := t.load(fr, x.X); s != "" {
					fr = fr.with(x, s)
				}
			case token.NOT:
				s := t.val(fr, x.X)
				switch {
				case s == "true":
					s = "false"
				case s == "false":
					s = "true"
				case strings.HasPrefix(s, "!"):
					s = s[1:]
				default:
					s = "!" + s
				}
				fr = fr.with(x, s)
			}
		case *ssa.BinOp:
			a, c := t.val(fr, x.X), t.val(fr, x.Y)
			switch x.Op {
			case token.ADD, token.SUB:
				sg := int64(1)
				if x.Op == token.SUB {
					sg = -1
				}
				if n, ok := constInt(x.Y); ok {
					fr = fr.with(x, addKind(a, sg*n))
				} else if n, ok := constInt(x.X); ok && x.Op == token.ADD {
					fr = fr.with(x, addKind(c, n))
				}
			case token.EQL, token.NEQ:
				if strings.HasPrefix(a, "#") || a == "nil" || a == "true" || a == "false" {
					a, c = c, a
				}
				s := a + "==" + c
				if c == "true" {
					s = a
				} else if c == "false" {
					s = "!" + a
				}
				if x.Op == token.NEQ {
					s = "!" + s
				}
				fr = fr.with(x, strings.TrimPrefix(s, "!!"))
			default:
				fr = fr.with(x, "("+a+" "+x.Op.String()+" "+c+")")
			}
		case *ssa.Extract:
			fr = fr.with(x, t.val(fr, x.Tuple)+fmt.Sprintf("#%d", x.Index))
		case *ssa.TypeAssert:
			fr = fr.with(x, t.val(fr, x.X))
		case *ssa.Store:
			// local cells of this frame
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				fr = fr.with(al, "&"+t.val(fr, x.Val))
			}
		case *ssa.Call:
			t.call(fr, x, p, func(p *tPath, res []string) {
				f2 := fr
				if len(res) == 1 {
					f2 = fr.with(x, res[0])
				} else if len(res) > 1 {
					for _, u := range *x.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index < len(res) {
							f2 = f2.with(ex, res[ex.Index])
						}
					}
				}
				t.rest(f2, b, i+1, p, k)
			})
			return
		case *ssa.Go, *ssa.Defer:
			t.fail(b.Instrs[i].Pos(), "go or defer in a visitor")
		case *ssa.Jump:
			k(p, fr, b.Succs[0], nil)
			return
		case *ssa.If:
			c := t.val(fr, x.Cond)
			for _, br := range []bool{true, false} {
				q, ok := t.assume(p, c, br)
				if !ok {
					continue
				}
				s := b.Succs[0]
				if !br {
					s = b.Succs[1]
				}
				k(q, fr, s, nil)
			}
			return
		case *ssa.Return:
			var rs []string
			for _, r := range x.Results {
				rs = append(rs, t.val(fr, r))
			}
			k(p, fr, nil, rs)
			return
		case *ssa.Panic:
			return
		}
	}
}

// load: the value at an address.
func (t *tInterp) load(fr *tFrame, a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if s, ok := fr.env[a]; ok {
			return s
		}
	case *ssa.Alloc:
		if s, ok := fr.env[x]; ok && strings.HasPrefix(s, "&") {
			return s[1:]
		}
	case *ssa.FreeVar:
		if s := t.val(fr, x); strings.HasPrefix(s, "&") {
			return s[1:]
		}
	}
	return ""
}

// assume refines a path with a condition. false: contradiction.
func (t *tInterp) assume(p *tPath, c string, val bool) (*tPath, bool) {
	for strings.HasPrefix(c, "!") {
		c, val = c[1:], !val
	}
	if c == "true" || c == "false" {
		return p, (c == "true") == val
	}
	if v, ok := p.Cond[c]; ok {
		return p, v == val
	}
	q := p.clone()
	q.Cond[c] = val
	// kind tests
	if n, v, ok := kindTest(c); ok {
		ks, seen := q.Kinds[n]
		if !seen {
			ks = kindSet{neg: true, m: map[int64]bool{}}
		}
		r, ok := ks.and(v, val)
		if !ok {
			return nil, false
		}
		q.Kinds[n] = r
		// the operator of an assignment
		if strings.HasSuffix(n, ".OperatorToken") && v == t.kindVal["KindEqualsToken"] {
			q.Cond["assign("+strings.TrimSuffix(n, ".OperatorToken")+")"] = val
		}
	}
	if strings.HasPrefix(c, "assign(") && val {
		n := strings.TrimSuffix(strings.TrimPrefix(c, "assign("), ")")
		ks, seen := q.Kinds[n]
		if !seen {
			ks = kindSet{neg: true, m: map[int64]bool{}}
		}
		r, ok := ks.and(t.kindVal["KindBinaryExpression"], true)
		if !ok {
			return nil, false
		}
		q.Kinds[n] = r
	}
	return q, true
}

func kindTest(c string) (node string, v int64, ok bool) {
	a, b, ok := strings.Cut(c, ".Kind==#")
	if !ok {
		return "", 0, false
	}
	n, err := strconv.ParseInt(b, 10, 64)
	return a, n, err == nil
}

// visitorOf resolves a function value to a visitor (or a closure that just calls one).
func (t *tInterp) visitorOf(fr *tFrame, v ssa.Value, pos token.Pos) *tVisitor {
	ts, complete := t.h.G.targets(fr.f, &ssa.CallCommon{Value: v})
	if !complete || len(ts) != 1 {
		t.fail(pos, "cannot resolve the visitor passed on in %s", fnName(fr.fn))
	}
	tg := ts[0]
	if t.visitors[tg.fn] {
		return t.visitor(tg, nil, nil, 0)
	}
	if len(tg.fn.Blocks) == 0 || len(tg.fn.Params) != 1 {
		t.fail(pos, "cannot follow the visitor %s", fnName(tg.fn))
	}
	t.onStack(fr, tg.fn, pos)
	// an adapter
	nf := t.frame(fr, tg, nil)
	nf.env[tg.fn.Params[0]] = "c"
	var res *tVisitor
	n := 0
	t.run(nf, tg.fn.Blocks[0], nil, &tPath{Kinds: map[string]kindSet{}, Cond: map[string]bool{}, As: map[string]string{}}, func(p *tPath, rets []string) {
		n++
		if len(p.Ev) != 1 || p.Ev[0].Op != "V" || p.Ev[0].Node != "c" || len(rets) > 0 && rets[0] != "false" || res != nil && res != p.Ev[0].Vis {
			t.fail(pos, "the callback %s does not simply visit its node: %v returns %v", fnName(tg.fn), p.Ev, rets)
		}
		res = p.Ev[0].Vis
	})
	if res == nil {
		t.fail(pos, "the callback %s never returns", fnName(tg.fn))
	}
	return res
}

func (t *tInterp) onStack(fr *tFrame, fn *ssa.Function, pos token.Pos) {
	var cyc []*ssa.Function
	for f := fr; f != nil; f = f.up {
		cyc = append(cyc, f.fn)
		if f.fn == fn {
			panic(tErr{msg: "recursion", pos: pos, cycle: cyc})
		}
	}
}

func (t *tInterp) frame(up *tFrame, tg target, c *ssa.CallCommon) *tFrame {
	f := &Frame{ID: -1 - t.steps, Fn: tg.fn, Bind: tg.bind, Parent: up.f, Thread: up.f.Thread, Depth: up.f.Depth + 1}
	if c != nil {
		for _, a := range c.Args {
			f.Args = append(f.Args, VV{up.f, a})
		}
	}
	return &tFrame{f: f, fn: tg.fn, env: map[ssa.Value]string{}, up: up, skip: map[*ssa.BasicBlock]bool{}}
}

func (t *tInterp) visitor(tg target, c *ssa.CallCommon, fr *tFrame, pos token.Pos) *tVisitor {
	v := &tVisitor{Fn: tg.fn, Bind: tg.bind, Consts: map[int]bool{}, NodeAt: -1}
	id := fmt.Sprintf("%p", tg.fn)
	for i, pr := range tg.fn.Params {
		if isNamed(deref(pr.Type()), pAst, "Node") {
			v.NodeAt = i
			continue
		}
		if c != nil && isBoolT(pr.Type()) {
			s := t.val(fr, c.Args[i])
			if s != "true" && s != "false" {
				t.fail(pos, "a visitor is called with an argument that is not constant")
			}
			v.Consts[i] = s == "true"
			id += fmt.Sprintf("|%d=%s", i, s)
			continue
		}
		if c != nil {
			continue
		}
		if isBoolT(pr.Type()) {
			t.fail(pos, "a visitor with extra parameters is passed on")
		}
	}
	if w, ok := t.known[id]; ok {
		return w
	}
	v.ID = id
	t.known[id] = v
	t.queue = append(t.queue, v)
	return v
}

func (t *tInterp) call(fr *tFrame, x *ssa.Call, p *tPath, k func(*tPath, []string)) {
	c := &x.Call
	if _, ok := c.Value.(*ssa.Builtin); ok {
		k(p, nil)
		return
	}
	rp := realPath(t.h.W, c)
	if !c.IsInvoke() {
		if sc := c.StaticCallee(); sc != nil {
			real := t.h.W.real(sc)
			if isTsgoPath(fnPkgPath(real)) || isTsgoPath(fnPkgPath(sc)) {
				t.astCall(fr, x, real, rp, p, k)
				return
			}
		}
	}
	ts, complete := t.h.G.targets(fr.f, c)
	if c.IsInvoke() || len(ts) == 0 {
		t.opaqueCall(fr, x, p, k)
		return
	}
	if !complete || len(ts) != 1 {
		t.fail(x.Pos(), "cannot resolve a call in %s", fnName(fr.fn))
	}
	tg := ts[0]
	if t.disp[tg.fn] {
		q := p.clone()
		e := tEvent{Op: "D", Pos: x.Pos()}
		for _, a := range c.Args {
			if isNamed(deref(a.Type()), pAst, "Node") {
				e.Node = t.val(fr, a)
			} else if isNamed(a.Type(), pAst, "Kind") {
				e.Kind = t.val(fr, a)
			}
		}
		q.Ev = append(q.Ev, e)
		k(q, nil)
		return
	}
	if t.visitors[tg.fn] || t.opaqueOn[tg.fn] {
		v := t.visitor(tg, c, fr, x.Pos())
		if v.NodeAt < 0 {
			t.fail(x.Pos(), "%s has no node parameter", fnName(tg.fn))
		}
		q := p.clone()
		q.Ev = append(q.Ev, tEvent{Op: "V", Node: t.val(fr, c.Args[v.NodeAt]), Vis: v, Pos: x.Pos()})
		k(q, []string{"false"})
		return
	}
	pk := fnPkgPath(tg.fn)
	if len(tg.fn.Blocks) == 0 || !isRepoPath(pk) {
		t.opaqueCall(fr, x, p, k)
		return
	}
	t.onStack(fr, tg.fn, x.Pos())
	nf := t.frame(fr, tg, c)
	for i, a := range c.Args {
		if i < len(tg.fn.Params) {
			nf.env[tg.fn.Params[i]] = t.val(fr, a)
		}
	}
	t.run(nf, tg.fn.Blocks[0], nil, p, k)
}

func (t *tInterp) opaqueCall(fr *tFrame, x *ssa.Call, p *tPath, k func(*tPath, []string)) {
	// a function value handed to unknown code may be run by it
	for _, a := range x.Call.Args {
		if isFuncT(a.Type()) {
			t.fail(x.Pos(), "a function is passed to %s, which is not followed", calleePath(&x.Call))
		}
	}
	k(p, nil)
}

// astCall: accessors of syntax nodes.
func (t *tInterp) astCall(fr *tFrame, x *ssa.Call, real *ssa.Function, rp string, p *tPath, k func(*tPath, []string)) {
	c := &x.Call
	name := real.Name()
	if name == "ForEachChild" && len(c.Args) == 2 {
		v := t.visitorOf(fr, c.Args[1], x.Pos())
		q := p.clone()
		q.Ev = append(q.Ev, tEvent{Op: "E", Node: t.val(fr, c.Args[0]), Vis: v, Pos: x.Pos()})
		k(q, []string{"false"})
		return
	}
	for _, a := range c.Args {
		if isFuncT(a.Type()) {
			t.fail(x.Pos(), "a function is passed to %s, which is not followed", rp)
		}
	}
	if real.Signature.Recv() != nil && len(c.Args) == 1 {
		s := t.val(fr, c.Args[0])
		if strings.HasPrefix(name, "As") && isNamed(deref(c.Args[0].Type()), pAst, "Node") {
			q := p.clone()
			q.As[s] = strings.TrimPrefix(name, "As")
			k(q, []string{s})
			return
		}
		k(p, []string{s + "." + capName(name)})
		return
	}
	if name == "IsAssignmentExpression" && len(c.Args) == 2 && t.val(fr, c.Args[1]) == "true" {
		k(p, []string{"assign(" + t.val(fr, c.Args[0]) + ")"})
		return
	}
	// kind predicates
	if real.Signature.Results().Len() == 1 && isBoolT(real.Signature.Results().At(0).Type()) && len(c.Args) == 1 && len(real.Blocks) > 0 && simplePredicate(real) {
		t.onStack(fr, real, x.Pos())
		nf := t.frame(fr, target{fn: real}, nil)
		nf.env[real.Params[0]] = t.val(fr, c.Args[0])
		t.run(nf, real.Blocks[0], nil, p, k)
		return
	}
	var as []string
	for _, a := range c.Args {
		as = append(as, t.val(fr, a))
	}
	k(p, []string{name + "(" + strings.Join(as, ",") + ")"})
}

func simplePredicate(f *ssa.Function) bool {
	if len(f.Blocks) > 12 || len(loopsOf(f)) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
					return false
				}
			}
		}
	}
	return true
}

// explore enumerates the paths of a visitor.
func (t *tInterp) explore(v *tVisitor) {
	f := &Frame{ID: -100000 - len(t.known), Fn: v.Fn, Bind: v.Bind, Parent: t.h.G.Root, Thread: t.h.G.Root.Thread, Depth: 1}
	fr := &tFrame{f: f, fn: v.Fn, env: map[ssa.Value]string{}, skip: map[*ssa.BasicBlock]bool{}}
	for i, p := range v.Fn.Params {
		if i == v.NodeAt {
			fr.env[p] = "n"
		} else if b, ok := v.Consts[i]; ok {
			fr.env[p] = strconv.FormatBool(b)
		}
	}
	v.Paths = nil
	t.run(fr, v.Fn.Blocks[0], nil, &tPath{Kinds: map[string]kindSet{}, Cond: map[string]bool{}, As: map[string]string{}}, func(p *tPath, rets []string) {
		q := p.clone()
		q.Ret = strings.Join(rets, ",")
		v.Paths = append(v.Paths, q)
	})
}

// evalKindFn evaluates one of the functions that derive a listener kind: its offset.
func (t *tInterp) kindOffset(f *ssa.Function) (int64, bool) {
	if f == nil || len(f.Params) != 1 || len(f.Blocks) == 0 {
		return 0, false
	}
	fr := &tFrame{f: &Frame{ID: -7, Fn: f, Parent: t.h.G.Root}, fn: f, env: map[ssa.Value]string{f.Params[0]: "k"}, skip: map[*ssa.BasicBlock]bool{}}
	res, n := "", 0
	t.run(fr, f.Blocks[0], nil, &tPath{Kinds: map[string]kindSet{}, Cond: map[string]bool{}, As: map[string]string{}}, func(p *tPath, rets []string) {
		n++
		if len(rets) == 1 {
			res = rets[0]
		}
	})
	if n != 1 || !strings.HasPrefix(res, "k+") {
		return 0, res == "k"
	}
	d, err := strconv.ParseInt(res[2:], 10, 64)
	return d, err == nil
}

// ---- the syntax tree -------------------------------------------------------

type astChild struct {
	Name     string
	List     bool
	Mods     bool
	Optional bool
}

// astChildren: what the ForEachChild methods of typescript-go visit, per struct.
func (w *World) astChildren() map[string][]astChild {
	res := map[string][]astChild{}
	p := w.L.Pkgs[pAst]
	if p == nil {
		return res
	}
	optional := map[string]map[string]bool{}
	src := map[string][]string{}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					continue
				}
				for _, fl := range st.Fields.List {
					pos := w.L.Fset.Position(fl.Pos())
					if src[pos.Filename] == nil {
						data, _ := os.ReadFile(pos.Filename)
						src[pos.Filename] = strings.Split(string(data), "\n")
					}
					if pos.Line-1 < len(src[pos.Filename]) && strings.Contains(src[pos.Filename][pos.Line-1], "// Optional") {
						for _, n := range fl.Names {
							if optional[ts.Name.Name] == nil {
								optional[ts.Name.Name] = map[string]bool{}
							}
							optional[ts.Name.Name][capName(n.Name)] = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "ForEachChild" || fd.Recv == nil || fd.Body == nil {
				continue
			}
			st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			id, ok := st.X.(*ast.Ident)
			if !ok {
				continue
			}
			var cs []astChild
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				ce, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				fn, ok := ce.Fun.(*ast.Ident)
				if !ok || len(ce.Args) != 2 || !strings.HasPrefix(fn.Name, "visit") {
					return true
				}
				sel, ok := ce.Args[1].(*ast.SelectorExpr)
				if !ok {
					return true
				}
				nm := capName(sel.Sel.Name)
				cs = append(cs, astChild{Name: nm, List: fn.Name != "visit", Mods: fn.Name == "visitModifiers", Optional: optional[id.Name][nm]})
				return true
			})
			res[id.Name] = cs
		}
	}
	return res
}

func (w *World) kindValues() map[string]int64 {
	res := map[string]int64{}
	p := w.L.Pkgs[pAst]
	if p == nil || p.Types == nil {
		return res
	}
	for _, n := range p.Types.Scope().Names() {
		if c, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "Kind") {
			if nm := namedOf(c.Type()); nm != nil && nm.Obj().Name() == "Kind" {
				if v, ok := constant.Int64Val(c.Val()); ok {
					res[n] = v
				}
			}
		}
	}
	return res
}

// ---- the check -------------------------------------------------------------

func checkC07(r *R) {
	r.Rule("root", "the traversal of a file starts with all children of the file")
	r.Rule("bracket", "on every path of a visitor the node's listeners are entered first and left last, once, properly nested around its children")
	r.Rule("children", "on every path, for every node kind it stands for, every child is visited, in source order, exactly once")
	r.Rule("pattern", "destructuring targets, and only they, are visited as patterns")
	r.Rule("no-stop", "a visitor never stops the traversal")
	r.Rule("kinds", "the kinds announced for enter, exit and pattern positions never coincide")
	h := headless(r)
	if h == nil {
		return
	}
	inv := h.ruleCalls(r)
	disp := map[*ssa.Function]bool{}
	for _, rc := range inv {
		if rc.Setup {
			continue
		}
		fn := h.anchor(VV{rc.N.F, callOf(rc.N).Value})
		o := h.outerIter(fn)
		if o == nil {
			continue
		}
		ca := h.anchor(VV{o.F, o.It.Coll})
		lk, ok := ca.V.(*ssa.Lookup)
		if ca.Kind != "lookup" || !ok {
			continue
		}
		_, kv := h.throughLocal(VV{ca.F, lk.Index})
		if p, ok := kv.(*ssa.Parameter); ok {
			disp[p.Parent()] = true
		}
	}
	if !r.Need(len(disp) > 0, "the function that calls the listeners of a kind") {
		return
	}
	kinds := h.W.kindValues()
	children := h.W.astChildren()
	if !r.Need(len(kinds) > 300 && len(children) > 100, "the syntax node kinds of typescript-go") {
		return
	}
	// roots
	type root struct {
		n  Node
		tg target
	}
	var roots []root
	files := map[string]Anchor{}
	for _, rc := range inv {
		if a, ok := h.currentFile(rc); ok {
			files[a.String()] = a
		}
	}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !strings.HasSuffix(realPath(h.W, c), "ForEachChild") || len(c.Args) != 2 || inCallback(n.F) || !isRepoPath(fnPkgPath(n.F.Fn)) {
			continue
		}
		v := c.Args[0]
		for {
			if fa, ok := v.(*ssa.FieldAddr); ok {
				v = fa.X
				continue
			}
			if cl, ok := v.(*ssa.Call); ok && len(cl.Call.Args) > 0 && strings.HasSuffix(realPath(h.W, &cl.Call), ".AsNode") {
				v = cl.Call.Args[0]
				continue
			}
			break
		}
		isFile := false
		for _, a := range files {
			if h.sameAnchor(h.anchor(VV{n.F, v}), a) {
				isFile = true
			}
		}
		if !isFile {
			continue
		}
		ts, ok := h.G.targets(n.F, &ssa.CallCommon{Value: c.Args[1]})
		if !ok || len(ts) != 1 {
			r.Bad("root", "traversal in "+h.where(n), h.G.nodePos(n), "cannot resolve the visitor")
			continue
		}
		r.Ob("root", "traversal in "+h.where(n), true, h.G.nodePos(n), "")
		roots = append(roots, root{n, ts[0]})
	}
	if !r.Need(len(roots) > 0, "the traversal of a file") {
		return
	}
	r.Min("root", 2)
	// offsets of the derived kinds
	t0 := &tInterp{h: h, disp: disp, kindVal: kinds}
	off := map[string]int64{}
	for _, n := range []string{"ListenerOnExit", "ListenerOnAllowPattern", "ListenerOnNotAllowPattern"} {
		f := h.W.lookupFn(pRule, "", n)
		d, ok := t0.kindOffset(f)
		if !ok {
			r.Bad("kinds", n, h.W.pos(fnPos(f)), "does not derive a kind by a constant offset: undecided")
			return
		}
		off[n] = d
	}
	ex, al, na := off["ListenerOnExit"], off["ListenerOnAllowPattern"], off["ListenerOnNotAllowPattern"]
	maxKind := int64(0)
	for _, v := range kinds {
		if v > maxKind {
			maxKind = v
		}
	}
	bands := map[string]int64{"enter": 0, "exit": ex, "pattern": al, "pattern exit": al + ex, "non-pattern": na, "non-pattern exit": na + ex}
	var bn []string
	for n := range bands {
		bn = append(bn, n)
	}
	sort.Strings(bn)
	for i, a := range bn {
		for _, b := range bn[i+1:] {
			d := bands[a] - bands[b]
			if d < 0 {
				d = -d
			}
			r.Ob("kinds", a+"/"+b, d > maxKind, h.W.pos(fnPos(h.W.lookupFn(pRule, "", "ListenerOnExit"))), fmt.Sprintf("the kinds for %s and %s overlap", a, b))
		}
	}
	kt := h.W.namedType(pAst, "Kind")
	if kt != nil {
		bits := map[types.BasicKind]int64{types.Int8: 127, types.Uint8: 255, types.Int16: 32767, types.Uint16: 65535}
		if b, ok := kt.Underlying().(*types.Basic); ok {
			if m, small := bits[b.Kind()]; small {
				top := int64(0)
				for _, v := range bands {
					if v > top {
						top = v
					}
				}
				r.Ob("kinds", "range", top+maxKind <= m, "-", "the derived kinds do not fit the kind type")
			}
		}
	}
	// explore
	visitors := map[*ssa.Function]bool{}
	var t *tInterp
	for round := 0; ; round++ {
		if round > 20 {
			r.Bad("bracket", "visitors", "-", "the recursion of the traversal cannot be cut: undecided")
			return
		}
		for _, rt := range roots {
			visitors[rt.tg.fn] = true
		}
		t = &tInterp{h: h, disp: disp, visitors: visitors, known: map[string]*tVisitor{}, kindVal: kinds, opaqueOn: map[*ssa.Function]bool{}}
		var e *tErr
		func() {
			defer func() {
				if x := recover(); x != nil {
					te, ok := x.(tErr)
					if !ok {
						panic(x)
					}
					e = &te
				}
			}()
			for _, rt := range roots {
				t.visitor(rt.tg, nil, nil, rt.n.I.Pos()).Root = true
			}
			for i := 0; i < len(t.queue); i++ {
				t.explore(t.queue[i])
			}
		}()
		if e == nil {
			break
		}
		if e.cycle == nil {
			r.Bad("bracket", "visitors", h.W.pos(e.pos), "the traversal cannot be followed: "+e.msg)
			return
		}
		visitors[t.pick(e.cycle)] = true
	}
	t.judge(r, kinds, children, ex, al, na)
	r.Min("bracket", 8)
	r.Min("children", 10)
	r.Min("pattern", 8)
	r.Min("no-stop", 2)
}

func fnPos(f *ssa.Function) token.Pos {
	if f == nil {
		return token.NoPos
	}
	return f.Pos()
}

// pick chooses the function of a recursion cycle that is a visitor: one that dispatches its own node.
func (t *tInterp) pick(cyc []*ssa.Function) *ssa.Function {
	best, score := cyc[0], -1
	for _, f := range cyc {
		s := 0
		nodes := 0
		for _, p := range f.Params {
			if isNamed(deref(p.Type()), pAst, "Node") {
				nodes++
			}
		}
		if nodes != 1 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				hasKind, own := false, false
				for _, a := range c.Call.Args {
					if isNamed(a.Type(), pAst, "Kind") {
						hasKind = true
					}
					if _, ok := a.(*ssa.Parameter); ok && isNamed(deref(a.Type()), pAst, "Node") {
						own = true
					}
				}
				if own {
					s++
				}
				if own && hasKind {
					s += 10
				}
			}
		}
		if s > score {
			best, score = f, s
		}
	}
	return best
}

// judge applies the rules to every path of every visitor.
func (t *tInterp) judge(r *R, kinds map[string]int64, children map[string][]astChild, ex, al, na int64) {
	h := t.h
	kname := map[int64]string{}
	var knames []string
	for n := range kinds {
		knames = append(knames, n)
	}
	sort.Strings(knames)
	for _, n := range knames {
		v := kinds[n]
		if o, ok := kname[v]; !ok || strings.HasPrefix(o, "KindFirst") || strings.HasPrefix(o, "KindLast") {
			kname[v] = n
		}
	}
	structOf := func(k string) string {
		s := strings.TrimPrefix(k, "Kind")
		if _, ok := children[s]; ok {
			return s
		}
		if k == "KindForInStatement" || k == "KindForOfStatement" {
			return "ForInOrOfStatement"
		}
		return ""
	}
	litA, litO := kinds["KindArrayLiteralExpression"], kinds["KindObjectLiteralExpression"]
	// visitors that only call another one
	final := func(v *tVisitor) *tVisitor {
		for i := 0; i < 20; i++ {
			w := v.alias()
			if w == nil {
				return v
			}
			v = w
		}
		return v
	}
	var queue []*tVisitor
	for _, v := range t.queue {
		w := final(v)
		w.Root = w.Root || v.Root
		if w == v {
			queue = append(queue, v)
		}
		for _, p := range v.Paths {
			for i := range p.Ev {
				if p.Ev[i].Vis != nil {
					p.Ev[i].Vis = final(p.Ev[i].Vis)
				}
			}
		}
	}
	t.queue = queue
	// class of every visitor
	for _, v := range t.queue {
		for _, p := range v.Paths {
			c := "N"
			for _, e := range p.Ev {
				if e.Op == "D" && (e.Kind == addKind("n.Kind", al)) {
					c = "P"
				}
			}
			if c == "N" {
				// only literals are bound to be announced as patterns
				ks, ok := p.Kinds["n"]
				if ok && !ks.has(litA) && !ks.has(litO) {
					continue
				}
			}
			if v.Class == "" {
				v.Class = c
			} else if v.Class != c {
				v.Class = "mixed"
			}
		}
		if v.Class == "" {
			v.Class = "N"
		}
	}
	special := func(cls string, k int64, p *tPath) map[string]string {
		// children that are to be visited as patterns
		switch kname[k] {
		case "KindBinaryExpression":
			if as, ok := p.Cond["assign(n)"]; ok && as {
				return map[string]string{"Left": "P"}
			} else if ok {
				return nil
			}
			return map[string]string{"Left": "?"}
		case "KindForInStatement", "KindForOfStatement":
			if cls == "P" {
				return nil // a statement is never a destructuring target
			}
			return map[string]string{"Initializer": "P"}
		}
		if cls != "P" {
			return nil
		}
		switch kname[k] {
		case "KindArrayLiteralExpression":
			return map[string]string{"Elements": "P"}
		case "KindObjectLiteralExpression":
			return map[string]string{"Properties": "P"}
		case "KindSpreadElement", "KindSpreadAssignment":
			return map[string]string{"Expression": "P"}
		case "KindPropertyAssignment":
			return map[string]string{"Initializer": "P"}
		}
		return nil
	}
	nPaths := 0
	for _, v := range t.queue {
		vn := v.name()
		vpos := h.W.pos(v.Fn.Pos())
		if v.Class == "mixed" {
			r.Bad("pattern", vn, vpos, "the visitor announces its node as a pattern on some paths only")
			continue
		}
		r.Ob("pattern", vn, !v.Root || v.Class == "N", vpos, "the statements of a file are visited as destructuring targets")
		if len(v.Paths) == 0 {
			r.Bad("bracket", vn, vpos, "the visitor never returns")
			continue
		}
		for _, p := range v.Paths {
			nPaths++
			pd := pathDesc(p, kname)
			con := vn + " " + pd
			pos := vpos
			if len(p.Ev) > 0 {
				pos = h.W.pos(p.Ev[0].Pos)
			}
			if v.Fn.Signature.Results().Len() > 0 {
				r.Ob("no-stop", con, p.Ret == "false", pos, "the visitor returns "+p.Ret+": the remaining siblings are not visited")
			}
			bad := bracket(p, ex, al, na)
			r.Ob("bracket", con, bad == "", pos, bad)
			// which pattern kinds
			want := map[string]bool{}
			allowed := map[string]bool{}
			ks, has := p.Kinds["n"]
			if !has {
				ks = kindSet{neg: true, m: map[int64]bool{}}
			}
			isLit := func() (all, some bool) {
				some = ks.has(litA) || ks.has(litO)
				all = !ks.neg
				for k := range ks.m {
					if !ks.neg && k != litA && k != litO {
						all = false
					}
				}
				return all && some, some
			}
			all, some := isLit()
			if v.Class == "P" {
				allowed[addKind("n.Kind", al)] = true
				if some {
					want[addKind("n.Kind", al)] = true
				}
			} else if some {
				want[addKind("n.Kind", na)] = true
				if all {
					allowed[addKind("n.Kind", na)] = true
				}
			}
			got := map[string]bool{}
			for _, e := range p.Ev {
				if e.Op == "D" && e.Kind != "n.Kind" {
					got[e.Kind] = true
				}
			}
			msg := ""
			for k := range want {
				if !got[k] {
					msg = "array and object literals are not announced with their pattern or non-pattern kind"
				}
				if !allowed[k] {
					msg = "other nodes are announced like literals, or literals like other nodes"
				}
			}
			for _, k := range []int64{al, na} {
				if got[addKind("n.Kind", k)] && !allowed[addKind("n.Kind", k)] {
					msg = "the node is announced with a pattern kind it does not have"
				}
			}
			r.Ob("pattern", con+": kind", msg == "", pos, msg)
			t.kids(r, v, p, ks, con, pos, kname, children, structOf, special)
		}
	}
	r.Info["visitors"] = len(t.queue)
	r.Info["visitor paths"] = nPaths
}

func pathDesc(p *tPath, kname map[int64]string) string {
	ks, ok := p.Kinds["n"]
	if !ok {
		return "[any kind]"
	}
	var ns []string
	for k := range ks.m {
		ns = append(ns, strings.TrimPrefix(kname[k], "Kind"))
	}
	sort.Strings(ns)
	s := strings.Join(ns, ",")
	if ks.neg {
		s = "other than " + s
	}
	var cs []string
	for c, v := range p.Cond {
		if _, _, ok := kindTest(c); ok || strings.HasPrefix(c, "?") {
			continue
		}
		if v {
			cs = append(cs, c)
		} else {
			cs = append(cs, "!"+c)
		}
	}
	sort.Strings(cs)
	if len(cs) > 0 {
		s += "; " + strings.Join(cs, ",")
	}
	return "[" + s + "]"
}

// bracket checks that dispatches nest around the children.
func bracket(p *tPath, ex, al, na int64) string {
	var st []string
	done := map[string]bool{}
	leaving := false
	for i, e := range p.Ev {
		if e.Op != "D" {
			if len(st) == 0 {
				return "a child is visited outside the node's enter and exit"
			}
			if leaving {
				return "a child is visited after an exit of the node"
			}
			continue
		}
		if e.Node != "n" {
			return "listeners are called with another node: " + e.Node
		}
		if len(st) > 0 && e.Kind == addKind(st[len(st)-1], ex) {
			st = st[:len(st)-1]
			leaving = true
			continue
		}
		if !strings.HasPrefix(e.Kind, "n.Kind") {
			return "listeners of another kind are called: " + e.Kind
		}
		d := int64(0)
		if e.Kind != "n.Kind" {
			d, _ = strconv.ParseInt(strings.TrimPrefix(e.Kind, "n.Kind+"), 10, 64)
		}
		if d != 0 && d != al && d != na {
			return "an exit does not match the innermost enter: " + e.Kind
		}
		if leaving {
			return "the node is entered again after an exit"
		}
		for j := 0; j < i; j++ {
			if p.Ev[j].Op != "D" {
				return "the node is entered after one of its children"
			}
		}
		if done[e.Kind] {
			return "the node is entered twice"
		}
		done[e.Kind] = true
		st = append(st, e.Kind)
	}
	if len(st) > 0 {
		return "the node is entered but not left: " + strings.Join(st, ", ")
	}
	if !done["n.Kind"] {
		return "the listeners of the node's kind are not called"
	}
	return ""
}

// kids checks that the children are all visited.
func (t *tInterp) kids(r *R, v *tVisitor, p *tPath, ks kindSet, con, pos string, kname map[int64]string, children map[string][]astChild, structOf func(string) string, special func(string, int64, *tPath) map[string]string) {
	var evs []tEvent
	for _, e := range p.Ev {
		if e.Op != "D" {
			evs = append(evs, e)
		}
	}
	var kset []int64
	for k := range kname {
		if ks.has(k) {
			kset = append(kset, k)
		}
	}
	sort.Slice(kset, func(i, j int) bool { return kset[i] < kset[j] })
	clsMsg := func(want, got, child string) string {
		if want == "?" {
			return "whether " + child + " is an assignment target is not tested"
		}
		if want == "P" {
			return "the destructuring target " + child + " is visited as an ordinary expression"
		}
		return child + " is visited as a destructuring target"
	}
	// the whole node at once
	for _, e := range evs {
		if e.Op == "E" {
			if len(evs) != 1 || e.Node != "n" {
				r.Bad("children", con, t.h.W.pos(e.Pos), fmt.Sprintf("children are visited more than once, or those of another node: %v", evs))
				return
			}
			r.Ob("children", con, true, pos, "")
			bad := ""
			for _, k := range kset {
				sp := special(v.Class, k, p)
				if len(sp) == 0 {
					if e.Vis.Class != "N" && len(children[structOf(kname[k])]) > 0 {
						bad = "children of " + kname[k] + " are visited as destructuring targets"
					}
					continue
				}
				for _, c := range children[structOf(kname[k])] {
					w := sp[c.Name]
					if w == "" {
						w = "N"
					}
					if c.Mods {
						continue
					}
					if w != e.Vis.Class {
						bad = clsMsg(w, e.Vis.Class, c.Name) + " (" + kname[k] + ")"
					}
				}
			}
			r.Ob("pattern", con+": children", bad == "", pos, bad)
			return
		}
	}
	// child by child
	if len(kset) == 0 {
		return
	}
	if ks.neg {
		r.Bad("children", con, pos, fmt.Sprintf("the children visited (%v) are not those of every kind of node", evs))
		return
	}
	for _, k := range kset {
		st := structOf(kname[k])
		cs, ok := children[st]
		kc := con + ": " + strings.TrimPrefix(kname[k], "Kind")
		if !ok {
			if strings.HasSuffix(kname[k], "Token") || strings.HasSuffix(kname[k], "Keyword") || kname[k] == "KindIdentifier" {
				r.Ob("children", kc, len(evs) == 0, pos, "a token has no children")
				continue
			}
			r.Bad("children", kc, pos, "cannot tell the children of "+kname[k])
			continue
		}
		bad, badCls := "", ""
		i := 0
		sp := special(v.Class, k, p)
		for _, c := range cs {
			// an assignment and a destructuring target never carry these
			exempt := c.Mods || (v.Class == "P" || kname[k] == "KindBinaryExpression") && (c.Name == "Type" || c.Name == "PostfixToken")
			if i < len(evs) && evs[i].Node == "n."+c.Name && (evs[i].Op == "L") == c.List {
				w := sp[c.Name]
				if w == "" {
					w = "N"
				}
				if evs[i].Vis.Class != w {
					badCls = clsMsg(w, evs[i].Vis.Class, c.Name)
				}
				if c.Optional && !p.notNil("n."+c.Name) {
					bad = "the optional child " + c.Name + " is visited without a test for nil"
				}
				i++
				continue
			}
			if exempt || p.Cond["n."+c.Name+"==nil"] {
				continue
			}
			bad = "the child " + c.Name + " is not visited, or not in source order"
			break
		}
		if bad == "" && i < len(evs) {
			bad = fmt.Sprintf("more than the children of the node is visited: %v", evs[i])
		}
		r.Ob("children", kc, bad == "", pos, bad)
		r.Ob("pattern", kc+": children", badCls == "", pos, badCls)
	}
}

func (p *tPath) notNil(n string) bool {
	v, ok := p.Cond[n+"==nil"]
	return ok && !v
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Waits: what a thread waits for has to come. On the supergraph of an entry point:
// loops that receive until a channel is closed, waits for groups of threads, sends
// on channels that can be full, and locks.
// ---------------------------------------------------------------------------

type waitRes struct {
	Rule, Construct string
	OK              bool
	Pos             token.Pos
	Why             string
}

type waits struct {
	h   *Headless
	ths []*Frame
	out []waitRes
}

type recvSite struct {
	N  Node // the receive
	F  *Frame
	It *Iter // nil: a single receive
	Ch map[Origin]bool
}

func (w *waits) add(rule, construct string, ok bool, pos token.Pos, why string) {
	if ok {
		why = ""
	}
	for _, x := range w.out {
		if x.Rule == rule && x.Construct == construct && x.Pos == pos && x.OK == ok {
			return
		}
	}
	w.out = append(w.out, waitRes{rule, construct, ok, pos, why})
}

func (w *waits) receives() []recvSite {
	var rs []recvSite
	seen := map[Node]bool{}
	for _, f := range w.h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "chan" {
				continue
			}
			n := Node{F: f, I: it.Source.(ssa.Instruction)}
			if !w.h.set[n] {
				continue
			}
			seen[n] = true
			rs = append(rs, recvSite{n, f, it, w.h.chanOf(VV{f, it.Coll})})
		}
	}
	for _, n := range w.h.Nodes {
		if u, ok := n.I.(*ssa.UnOp); ok && u.Op == token.ARROW && !seen[n] {
			rs = append(rs, recvSite{n, n.F, nil, w.h.chanOf(VV{n.F, u.X})})
		}
	}
	return rs
}

func (w *waits) closes(ch map[Origin]bool) []Node {
	var r []Node
	for _, n := range w.h.Nodes {
		if c := callOf(n); c != nil && calleePath(c) == "builtin.close" && overlapO(ch, w.h.chanOf(VV{n.F, c.Args[0]})) {
			r = append(r, n)
		}
	}
	return r
}

func isThreadOf(n Node, t *Frame) bool { return n.F.Thread == t }

// dependents: the nodes that do not get past t before t has ended, with the waits for
// channels that are closed only after such a node.
func (w *waits) dependents(t *Frame, rs []recvSite) map[Node]bool {
	dep := map[Node]bool{}
	late := map[*Frame]bool{t: true} // threads that end (or close) only after t
	for changed := true; changed; {
		changed = false
		for _, n := range w.h.Nodes {
			if dep[n] {
				continue
			}
			for l := range late {
				if l != n.F.Thread && w.h.joinNode(l, n) && !isRecv(n) {
					dep[n] = true
					changed = true
					break
				}
			}
		}
		for _, v := range w.ths {
			if late[v] {
				continue
			}
			e, ok := w.h.G.Entry(v)
			if !ok {
				continue
			}
			// v always passes a dependent node
			has := false
			for n := range dep {
				has = has || n.F.Thread == v
			}
			if !has {
				continue
			}
			rets := w.h.frameReturns(v)
			if _, ok := w.h.mustPass([]Node{e}, func(n Node) bool { return dep[n] }, func(n Node) bool { return rets[n] }, nil); ok {
				late[v] = true
				changed = true
			}
		}
		for _, s := range rs {
			if dep[s.N] || s.It == nil {
				continue
			}
			cl := w.closes(s.Ch)
			if len(cl) == 0 {
				continue
			}
			all := true
			for _, c := range cl {
				// every close comes after a dependent node of its thread
				th := c.F.Thread
				if th == t {
					continue
				}
				e := w.h.Entry
				if th.Parent != nil {
					e, _ = w.h.G.Entry(th)
				}
				seen := w.h.G.Reach([]Node{e}, func(n Node) bool { return dep[n] && n.F.Thread == th }, nil)
				if seen[c] {
					all = false
				}
			}
			if all {
				dep[s.N] = true
				changed = true
			}
		}
	}
	return dep
}

func isRecv(n Node) bool {
	u, ok := n.I.(*ssa.UnOp)
	return ok && u.Op == token.ARROW
}

// certain: nodes after which one of the given nodes is certain to be executed: the nodes
// themselves, and the starts of threads that always execute one of them.
func (w *waits) certain(ns []Node, not *Frame) map[Node]bool {
	m := map[Node]bool{}
	for _, n := range ns {
		if n.F.Thread != not {
			m[n] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, v := range w.ths {
			sp := spawnNode(v)
			if v == not || m[sp] {
				continue
			}
			e, ok := w.h.G.Entry(v)
			if !ok {
				continue
			}
			rets := w.h.frameReturns(v)
			any := false
			for n := range m {
				any = any || n.F.Thread == v
			}
			if !any {
				continue
			}
			if _, ok := w.h.mustPass([]Node{e}, func(n Node) bool { return m[n] }, func(n Node) bool { return rets[n] }, nil); ok {
				m[sp] = true
				changed = true
			}
		}
	}
	return m
}

func (w *waits) name(f *Frame) string {
	if f.Parent == nil {
		return "the main thread"
	}
	return "the thread started in " + fnName(f.Parent.Fn)
}

func (w *waits) recvRules(rs []recvSite) {
	h := w.h
	for _, s := range rs {
		t := s.F.Thread
		cl := w.closes(s.Ch)
		if s.It == nil {
			plain, sel := h.sends(s.Ch)
			cl = append(append(cl, plain...), sel...)
		}
		label := "the receive in " + fnName(s.F.Fn)
		pos := s.N.I.Pos()
		if s.It != nil {
			label = "the receiving loop in " + fnName(s.F.Fn)
			pos = s.It.Loop.pos()
		}
		ev := w.certain(cl, t)
		if t.Parent == nil {
			// the main thread itself: what ends the wait has been done or started before
			ev = w.certain(cl, nil)
			from := []Node{h.Entry}
			if ms, ok := w.made(s, t, ev, nil); ok {
				from = ms
			}
			seen := h.G.Reach(from, func(n Node) bool { return ev[n] }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
			// the loop comes back to the receive: only the first arrival counts
			w.add("receive-ends", label, !seen[s.N], pos, "a path reaches it on which the channel is neither closed nor is a thread running that always closes it")
			continue
		}
		dep := w.dependents(t, rs)
		bad := ""
		for d := range dep {
			if d.F.Thread == t {
				continue
			}
			u := d.F.Thread
			// the thread that started t closes the channel, from its making on, before it waits for t
			st := spawnNode(t)
			if u != st.F.Thread {
				continue
			}
			from := h.G.After(st)
			if ms, ok := w.made(s, u, ev, dep); ok {
				from = ms
			}
			seen := h.G.Reach(from, func(n Node) bool { return ev[n] }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
			if seen[d] && !ev[d] {
				bad = h.G.nodePos(d)
			}
		}
		w.add("receive-ends", label, bad == "", pos, "a path waits for this thread ("+bad+") before the channel it receives from is closed")
	}
}

// made: where the thread makes the channel. Channels that another thread makes and always
// closes before it ends, with nothing to wait for, are left out. ok is false when the
// channel comes from anywhere else.
func (w *waits) made(s recvSite, t *Frame, ev, dep map[Node]bool) (r []Node, ok bool) {
	for o := range s.Ch {
		if emptyLit(o.V) {
			continue
		}
		mk, is := o.V.(*ssa.MakeChan)
		if !is || o.F == nil {
			return nil, false
		}
		n := Node{F: o.F, I: mk}
		v := o.F.Thread
		if v == t {
			r = append(r, n)
			continue
		}
		if v == s.F.Thread {
			return nil, false
		}
		rets := w.h.frameReturns(v)
		if _, closed := w.h.mustPass([]Node{n}, func(m Node) bool { return ev[m] }, func(m Node) bool { return rets[m] || dep[m] && m.F.Thread == v }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread }); !closed {
			return nil, false
		}
	}
	return r, true
}

// leftOnlyWhenClosed: the receiving loop goes on until the channel is closed (or the process ends).
func (w *waits) leftOnlyWhenClosed(s recvSite) (token.Pos, bool) {
	l := s.It.Loop
	rets := w.h.frameReturns(s.F)
	for b := range l.Body {
		for _, x := range b.Succs {
			if l.Body[x] || b == s.It.If.Block() && x == s.It.Exit() {
				continue
			}
			if len(x.Instrs) == 0 {
				continue
			}
			seen := w.h.G.Reach([]Node{{F: s.F, I: x.Instrs[0]}}, nil, nil)
			for r := range rets {
				if seen[r] {
					for _, in := range x.Instrs {
						if in.Pos().IsValid() {
							return in.Pos(), false
						}
					}
					return b.Instrs[len(b.Instrs)-1].Pos(), false
				}
			}
		}
	}
	return token.NoPos, true
}

func (w *waits) queued(t *Frame) bool {
	c := t.Site.Common()
	return c.IsInvoke() && c.Method.Name() == "Queue"
}

func (w *waits) sendRules(rs []recvSite) {
	h := w.h
	for _, n := range h.Nodes {
		snd, ok := n.I.(*ssa.Send)
		if !ok {
			continue
		}
		ch := h.chanOf(VV{n.F, snd.Chan})
		label := "the send in " + fnName(n.F.Fn)
		if w.fits(n, ch) {
			w.add("send-gets-through", label, true, snd.Pos(), "")
			continue
		}
		why := "nothing receives from the channel until it is closed, and its buffer is not sized to what is sent"
		good := false
		for _, s := range rs {
			if s.It == nil || !overlapO(ch, s.Ch) || s.F.Thread == n.F.Thread {
				continue
			}
			if p, ok := w.leftOnlyWhenClosed(s); !ok {
				why = "the loop that receives can stop before the channel is closed (" + h.W.pos(p) + ")"
				continue
			}
			t := s.F.Thread
			if t.Parent != nil {
				if w.queued(t) {
					why = "the thread that receives may start only after the send"
					continue
				}
				e, _ := h.G.Entry(t)
				rets := h.frameReturns(t)
				if x, ok := h.mustPass([]Node{e}, func(m Node) bool { return m == s.N }, func(m Node) bool { return rets[m] }, nil); !ok {
					why = "the thread that receives can end without receiving (" + h.G.nodePos(x) + ")"
					continue
				}
				sp := spawnNode(t)
				seen := h.G.Reach([]Node{h.Entry}, func(m Node) bool { return m == sp || w.leadsTo(m, sp) }, w.neverTaken)
				if seen[n] {
					why = "the send can come before the thread that receives is started"
					continue
				}
				good = true
				break
			}
			// the main thread receives: it gets there before it waits for the sender
			if n.F.Thread.Parent == nil {
				continue
			}
			dep := w.dependents(n.F.Thread, rs)
			sp := spawnNode(n.F.Thread)
			seen := h.G.Reach(h.G.After(sp), func(m Node) bool { return m == s.N }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
			ok := true
			for d := range dep {
				if d != s.N && d.F.Thread == t && seen[d] {
					why = "the main thread waits for the sender (" + h.G.nodePos(d) + ") before it receives"
					ok = false
				}
			}
			if ok {
				good = true
				break
			}
		}
		w.add("send-gets-through", label, good, snd.Pos(), why)
	}
}

// leadsTo: m is the test of a loop that runs at least once and in which every round
// passes sp.
func (w *waits) leadsTo(m, sp Node) bool {
	ifi, ok := m.I.(*ssa.If)
	if !ok || m.F != sp.F {
		return false
	}
	for _, l := range loopsOf(m.F.Fn) {
		if !l.Body[sp.I.Block()] {
			continue
		}
		b := ifi.Block()
		if b != l.Header && !(len(b.Preds) == 1 && b.Preds[0] == l.Header && len(l.Header.Succs) == 1) {
			continue
		}
		enter := -1
		for i, x := range b.Succs {
			if l.Body[x] && !l.Body[b.Succs[1-i]] {
				enter = i
			}
		}
		if enter < 0 || !w.enteredFirst(m.F, l, ifi, enter == 0) {
			continue
		}
		if e := b.Succs[enter].Instrs[0]; true {
			seen := w.h.G.Reach([]Node{{F: m.F, I: e, At: m.At}}, func(x Node) bool { return x == sp }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
			if !seen[m] {
				return true
			}
		}
	}
	return false
}

// neverTaken: the branch of a test outside of loops that always goes the other way.
func (w *waits) neverTaken(from Node, e Edge) bool {
	ifi, ok := from.I.(*ssa.If)
	if !ok || e.To.F != from.F {
		return false
	}
	for _, l := range loopsOf(from.F.Fn) {
		if l.Body[ifi.Block()] {
			return false
		}
	}
	b := ifi.Block()
	to := e.To.I.Block()
	if b.Succs[0] == b.Succs[1] || to != b.Succs[0] && to != b.Succs[1] {
		return false
	}
	return w.enteredFirst(from.F, nil, ifi, to != b.Succs[0])
}

// enteredFirst: the test of the loop is want the first time.
func (w *waits) enteredFirst(f *Frame, l *Loop, ifi *ssa.If, want bool) bool {
	cond := ifi.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, want = u.X, !want
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if !want {
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		default:
			return false
		}
	}
	switch op {
	case token.GTR:
		x, y, op = y, x, token.LSS
	case token.GEQ:
		x, y, op = y, x, token.LEQ
	}
	// the greatest first value of x, the least of y
	lo, ok1 := w.first(f, l, x, false, 0)
	hi, ok2 := w.first(f, l, y, true, 0)
	switch op {
	case token.LSS:
		return ok1 && ok2 && lo < hi
	case token.LEQ:
		return ok1 && ok2 && lo <= hi
	case token.NEQ:
		return ok1 && ok2 && lo < hi
	}
	return false
}

// first bounds what v is at the first test of the loop, from below (least) or from above.
func (w *waits) first(f *Frame, l *Loop, v ssa.Value, least bool, depth int) (int64, bool) {
	if depth > 12 {
		return 0, false
	}
	if n, ok := constInt(v); ok {
		return n, true
	}
	worst := func(vs []VV) (r int64, ok bool) {
		for i, x := range vs {
			n, good := w.first(x.F, l, x.V, least, depth+1)
			if !good {
				return 0, false
			}
			if i == 0 || least && n < r || !least && n > r {
				r = n
			}
		}
		return r, len(vs) > 0
	}
	switch x := v.(type) {
	case *ssa.Phi:
		var vs []VV
		for i, e := range x.Edges {
			if l != nil && x.Block() == l.Header && l.Body[l.Header.Preds[i]] {
				continue
			}
			vs = append(vs, VV{f, e})
		}
		return worst(vs)
	case *ssa.BinOp:
		a, ok1 := w.first(f, l, x.X, least, depth+1)
		b, ok2 := w.first(f, l, x.Y, least, depth+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		if x.Op == token.ADD {
			return a + b, true
		}
		if k, isK := constInt(x.Y); isK && x.Op == token.SUB {
			return a - k, true
		}
		if x.Op == token.MUL && a >= 0 && b >= 0 && least {
			return a * b, true
		}
		return 0, false
	case *ssa.Convert:
		return w.first(f, l, x.X, least, depth+1)
	case *ssa.Call:
		c := x.Common()
		switch calleePath(c) {
		case "runtime.GOMAXPROCS", "runtime.NumCPU":
			return 1, least
		case "builtin.len", "builtin.cap":
			return 0, least
		case "builtin.max", "builtin.min":
			best, any := int64(0), false
			pickMax := calleePath(c) == "builtin.max"
			for _, a := range c.Args {
				n, ok := w.first(f, l, a, least, depth+1)
				if !ok {
					if pickMax == least {
						continue // only one of them has to be known
					}
					return 0, false
				}
				if !any || pickMax && n > best || !pickMax && n < best {
					best = n
				}
				any = true
			}
			return best, any
		}
	}
	var vs []VV
	for _, o := range w.h.G.Origins(VV{f, v}) {
		if o.V == v && o.F == f || o.V == nil {
			return 0, false
		}
		vs = append(vs, VV{o.F, o.V})
	}
	return worst(vs)
}

// atLeastLen: the len(x) that v is never less than, or v.
func (w *waits) atLeastLen(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if n, ok := constInt(x.Y); ok && n >= 0 {
				return w.atLeastLen(x.X)
			}
			if n, ok := constInt(x.X); ok && n >= 0 {
				return w.atLeastLen(x.Y)
			}
		}
		if n, ok := constInt(x.Y); ok && x.Op == token.MUL && n >= 1 {
			return w.atLeastLen(x.X)
		}
	case *ssa.Convert:
		return w.atLeastLen(x.X)
	case *ssa.Call:
		if calleePath(x.Common()) == "builtin.max" {
			for _, a := range x.Call.Args {
				if r := w.atLeastLen(a); lenArg(r) != nil {
					return r
				}
			}
		}
	}
	return v
}

// fits: the buffer has room for every element of the collection, and each is sent once.
func (w *waits) fits(n Node, ch map[Origin]bool) bool {
	coll, f, it, ok := w.perElement(ch, map[*Frame]bool{})
	if !ok {
		return false
	}
	for o := range ch {
		if emptyLit(o.V) {
			continue
		}
		mk, ok := o.V.(*ssa.MakeChan)
		if !ok {
			return false
		}
		match := false
		for _, so := range append(w.h.G.Origins(VV{o.F, mk.Size}), Origin{F: o.F, V: mk.Size}) {
			v := so.V
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
			}
			if c := lenArg(w.atLeastLen(v)); c != nil {
				match = match || overlapO(coll, originSet(w.h.G.Origins(VV{so.F, c}))) || so.F == f && sameVal(c, it.Coll)
			}
		}
		if !match {
			return false
		}
		// nothing between the making of the channel and the iteration repeats the iteration
		for _, l := range loopsOf(f.Fn) {
			if l.Body[it.Loop.Header] && l.Header != it.Loop.Header && !(o.F == f && l.Body[mk.Block()]) {
				return false
			}
		}
	}
	return true
}

// perElement: what is sent on the channel comes to one for each element of a collection
// that an iteration visits, directly or handed on by loops that receive from such a
// channel.
func (w *waits) perElement(ch map[Origin]bool, seen map[*Frame]bool) (coll map[Origin]bool, f *Frame, it *Iter, ok bool) {
	h := w.h
	plain, sel := h.sends(ch)
	sites := append(plain, sel...)
	instrs := map[ssa.Instruction]bool{}
	for _, p := range sites {
		instrs[p.I] = true
	}
	var src map[Origin]bool
	for _, p := range sites {
		pf, pit := w.roundOf(p)
		if pit == nil {
			return nil, nil, nil, false
		}
		if pit.Kind != "chan" {
			if len(instrs) != 1 {
				return nil, nil, nil, false
			}
			return originSet(h.G.Origins(VV{pf, pit.Coll})), pf, pit, true
		}
		// handed on: at most one for each element received
		recv := Node{F: pf, I: pit.Source.(ssa.Instruction)}
		again := h.G.Reach(h.G.After(p), func(m Node) bool { return m.F == pf && m.I == recv.I }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
		for m := range again {
			if m.F.Thread == pf.Thread && instrs[m.I] {
				return nil, nil, nil, false
			}
		}
		x := h.chanOf(VV{pf, pit.Coll})
		if src != nil && !(overlapO(src, x)) || overlapO(x, ch) || seen[pf] {
			return nil, nil, nil, false
		}
		src = x
	}
	if src == nil {
		return nil, nil, nil, false
	}
	for _, p := range sites {
		seen[p.F] = true
	}
	return w.perElement(src, seen)
}

// roundOf: the innermost loop around the node (or around the calls that lead to it), if
// it visits every element of a collection or receives until a channel is closed.
func (w *waits) roundOf(n Node) (*Frame, *Iter) {
	f, in := n.F, n.I
	for f != nil {
		var it *Iter
		for _, x := range itersIn(f.Fn) {
			if !x.Loop.Body[in.Block()] {
				continue
			}
			inner := false
			for _, l := range loopsOf(f.Fn) {
				if l.Header != x.Loop.Header && x.Loop.Body[l.Header] && l.Body[in.Block()] {
					inner = true
				}
			}
			if !inner {
				it = x
			}
		}
		inLoop := false
		for _, l := range loopsOf(f.Fn) {
			inLoop = inLoop || l.Body[in.Block()]
		}
		if it != nil || inLoop || f.Kind != kCall || f.Parent == nil {
			return f, it
		}
		in, f = f.Site, f.Parent
	}
	return nil, nil
}

func (w *waits) joinRules() {
	h := w.h
	g := map[*Frame]map[*Frame]Node{}
	for _, t := range w.ths {
		for _, n := range h.Nodes {
			if isRecv(n) || callOf(n) == nil || !h.joinNode(t, n) {
				continue
			}
			u := n.F.Thread
			if u == t {
				w.add("no-wait-for-itself", w.name(t), false, n.I.Pos(), "a thread of the group waits for the group")
				continue
			}
			if g[u] == nil {
				g[u] = map[*Frame]Node{}
			}
			g[u][t] = n
		}
		w.add("no-wait-for-itself", w.name(t), true, t.Site.Pos(), "")
	}
	// circles
	for a, m := range g {
		var reach func(x *Frame, seen map[*Frame]bool) bool
		reach = func(x *Frame, seen map[*Frame]bool) bool {
			if x == a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range g[x] {
				if reach(y, seen) {
					return true
				}
			}
			return false
		}
		for b, n := range m {
			if reach(b, map[*Frame]bool{}) {
				w.add("no-wait-for-itself", w.name(a), false, n.I.Pos(), "threads wait for each other")
			}
		}
	}
	// counted groups: a thread that has been counted says that it is done on every path
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) || calleePath(c) != "sync.WaitGroup.Add" {
			continue
		}
		wl := h.locsOf(VV{n.F, c.Args[0]})
		k, isK := constInt(c.Args[1])
		for _, t := range w.ths {
			if calleePath(t.Site.Common()) == "sync.WaitGroup.Go" {
				continue
			}
			done := map[Node]bool{}
			for _, m := range h.Nodes {
				if mc := callOf(m); m.F.Thread == t && mc != nil && calleePath(mc) == "sync.WaitGroup.Done" && overlap(wl, h.locsOf(VV{m.F, mc.Args[0]})) {
					done[m] = true
				}
			}
			if len(done) == 0 {
				continue
			}
			e, _ := h.G.Entry(t)
			rets := h.frameReturns(t)
			x, ok := h.mustPass([]Node{e}, func(m Node) bool { return done[m] }, func(m Node) bool { return rets[m] }, nil)
			why := ""
			if !ok {
				why = "a counted thread can end without saying so (" + h.G.nodePos(x) + ")"
			}
			w.add("counted-threads-end", w.name(t), ok, t.Site.Pos(), why)
		}
		if isK && k == 1 {
			// a thread that will say Done is started on every path to a wait
			starts := map[Node]bool{}
			for _, t := range w.ths {
				for _, m := range h.Nodes {
					if mc := callOf(m); m.F.Thread == t && mc != nil && calleePath(mc) == "sync.WaitGroup.Done" && overlap(wl, h.locsOf(VV{m.F, mc.Args[0]})) {
						starts[spawnNode(t)] = true
					}
				}
			}
			seen := h.G.Reach(h.G.After(n), func(m Node) bool { return starts[m] }, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
			for m := range seen {
				if mc := callOf(m); mc != nil && h.G.Opaque(m) && calleePath(mc) == "sync.WaitGroup.Wait" && overlap(wl, h.locsOf(VV{m.F, mc.Args[0]})) {
					w.add("counted-threads-end", "the group of "+fnName(n.F.Fn), false, n.I.Pos(), "a path counts a thread and waits ("+h.G.nodePos(m)+") without starting it")
				}
			}
		}
	}
}

func lockKind(cp string) (lock, unlock string) {
	switch cp {
	case "sync.Mutex.Lock":
		return "Lock", "sync.Mutex.Unlock"
	case "sync.RWMutex.Lock":
		return "Lock", "sync.RWMutex.Unlock"
	case "sync.RWMutex.RLock":
		return "RLock", "sync.RWMutex.RUnlock"
	}
	return "", ""
}

func (w *waits) lockRules() {
	h := w.h
	order := map[string]map[string]Node{}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) || len(c.Args) == 0 {
			continue
		}
		kind, un := lockKind(calleePath(c))
		if kind == "" {
			continue
		}
		loc := h.locsOf(VV{n.F, c.Args[0]})
		isUn := func(m Node) bool {
			mc := callOf(m)
			if mc == nil || !h.G.Opaque(m) || calleePath(mc) != un {
				return false
			}
			if _, ok := m.I.(*ssa.Defer); ok && m.At == nil {
				return false
			}
			return overlap(loc, h.locsOf(VV{m.F, mc.Args[0]}))
		}
		label := "the lock in " + fnName(n.F.Fn)
		held := h.G.Reach(h.G.After(n), isUn, func(from Node, e Edge) bool { return e.To.F.Thread != from.F.Thread })
		ok, why := true, ""
		// still held when the thread (or the whole call that took it) ends
		rets := map[Node]bool{}
		for f := n.F; f != nil; f = f.Parent {
			if f.Thread.Fn == f.Fn || f.Kind == kParallel || f.Kind == kCallback || f == n.F {
				for r := range h.frameReturns(f) {
					rets[r] = true
				}
			}
			if f == f.Thread {
				break
			}
		}
		lockers := false
		if len(rets) > 0 {
			for m := range held {
				if rets[m] && m.F != n.F || rets[m] && !w.unlockedByCaller(n.F, isUn) {
					ok, why = false, "a path ends ("+h.G.nodePos(m)+") with the lock held"
				}
			}
		}
		for m := range held {
			mc := callOf(m)
			if mc != nil && h.G.Opaque(m) {
				k2, _ := lockKind(calleePath(mc))
				if _, isD := m.I.(*ssa.Defer); k2 != "" && !(isD && m.At == nil) {
					l2 := h.locsOf(VV{m.F, mc.Args[0]})
					if overlap(loc, l2) && !(kind == "RLock" && k2 == "RLock") {
						ok, why = false, "a path takes the lock again ("+h.G.nodePos(m)+") while it is held"
					} else if !overlap(loc, l2) {
						for a := range loc {
							for b := range l2 {
								if order[a] == nil {
									order[a] = map[string]Node{}
								}
								order[a][b] = m
							}
						}
					}
					lockers = true
				}
				for _, t := range w.ths {
					if t.Kind == kParallel && spawnNode(t) == m && w.takes(t, loc) {
						ok, why = false, "a path waits ("+h.G.nodePos(m)+") with the lock held for a thread that takes it"
					}
				}
				cp := calleePath(mc)
				if cp == "sync.WaitGroup.Wait" || mc.IsInvoke() && mc.Method.Name() == "RunAndWait" {
					// waits for threads that take the lock
					for _, t := range w.ths {
						if h.joinNode(t, m) && w.takes(t, loc) {
							ok, why = false, "a path waits ("+h.G.nodePos(m)+") with the lock held for a thread that takes it"
						}
					}
				}
			}
			if snd, isS := m.I.(*ssa.Send); isS {
				for _, t := range w.ths {
					if w.takes(t, loc) && t != n.F.Thread && w.receivesFrom(t, h.chanOf(VV{m.F, snd.Chan})) {
						ok, why = false, "a path sends ("+h.G.nodePos(m)+") with the lock held to a thread that takes it"
					}
				}
			}
		}
		_ = lockers
		w.add("lock-is-released", label, ok, n.I.Pos(), why)
	}
	for a, m := range order {
		for b, n := range m {
			if b != a && order[b] != nil {
				if n2, ok := order[b][a]; ok {
					w.add("lock-order", fnName(n.F.Fn), false, n.I.Pos(), "two locks are taken in both orders (the other: "+h.G.nodePos(n2)+")")
				}
			}
		}
	}
}

// unlockedByCaller: the function only takes the lock; its caller releases it.
func (w *waits) unlockedByCaller(f *Frame, isUn func(Node) bool) bool {
	if f.Kind != kCall || f.Parent == nil || f == f.Thread {
		return false
	}
	for b := range w.h.frameReturns(f) {
		_ = b
	}
	// every path after the call releases it before the caller ends
	rets := w.h.frameReturns(f.Parent)
	_, ok := w.h.mustPass(w.h.G.After(Node{F: f.Parent, I: f.Site, At: f.At}), isUn, func(m Node) bool { return rets[m] }, nil)
	if ok {
		return true
	}
	return w.unlockedByCaller(f.Parent, isUn)
}

func (w *waits) takes(t *Frame, loc map[string]bool) bool {
	for _, n := range w.h.Nodes {
		if n.F.Thread != t {
			continue
		}
		if c := callOf(n); c != nil && w.h.G.Opaque(n) && len(c.Args) > 0 {
			if k, _ := lockKind(calleePath(c)); k != "" && overlap(loc, w.h.locsOf(VV{n.F, c.Args[0]})) {
				return true
			}
		}
	}
	return false
}

func (w *waits) receivesFrom(t *Frame, ch map[Origin]bool) bool {
	for _, n := range w.h.Nodes {
		if u, ok := n.I.(*ssa.UnOp); ok && u.Op == token.ARROW && n.F.Thread == t && overlapO(ch, w.h.chanOf(VV{n.F, u.X})) {
			return true
		}
	}
	return false
}

func newWaits(h *Headless) *waits {
	w := &waits{h: h, ths: h.threads()}
	rs := w.receives()
	w.recvRules(rs)
	w.sendRules(rs)
	w.joinRules()
	w.lockRules()
	sort.SliceStable(w.out, func(i, j int) bool {
		if w.out[i].Rule != w.out[j].Rule {
			return w.out[i].Rule < w.out[j].Rule
		}
		return w.out[i].Construct < w.out[j].Construct
	})
	return w
}

func (w waitRes) String() string {
	return fmt.Sprint(w.Rule, " ", w.Construct, " ", w.OK, " ", strings.TrimSpace(w.Why))
}

// emptyLit: the array behind a literal of an empty slice.
func emptyLit(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	ar, ok := deref(al.Type()).Underlying().(*types.Array)
	return ok && ar.Len() == 0
}

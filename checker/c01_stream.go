package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Headless stdout is a sequence of whole, well-formed frames",
		"Supergraph of the headless entry point (all repo functions below it inlined per call site, goroutines as threads). Every operation on standard output is classified and the byte stream is type-checked: each write must continue a frame of the form [uint32 little-endian length of the JSON body][type byte][that body]; nothing else may be written; a failed encoding must not reach a write; no two goroutines may write without the second having joined the first; nothing outside the headless graph (rules, utilities, imported typescript-go packages) refers to standard output.",
		checkC01)
}

type stdoutInfo struct {
	ops    map[Node]*stdoutOp
	writes []Node
}

func (h *Headless) stdoutOps() *stdoutInfo {
	si := &stdoutInfo{ops: map[Node]*stdoutOp{}}
	for _, n := range h.Nodes {
		if op := h.stdoutOp(n); op != nil {
			si.ops[n] = op
			if op.Kind == "write" {
				si.writes = append(si.writes, n)
			}
		}
	}
	return si
}

func checkC01(r *R) {
	r.Rule("frame-grammar", "every write to stdout continues [len32 LE of body][type][body]; at thread end no frame is half written")
	r.Rule("frame-buffer", "header bytes are set on every path to the write that sends them")
	r.Rule("only-frames", "stdout is used for nothing but frame writes, flushes and capacity queries")
	r.Rule("encode-failure", "no byte of a frame is written when encoding its body failed")
	r.Rule("single-writer", "two goroutines never write stdout without a join between them")
	r.Rule("flush", "buffered frames are flushed on every path to the end of their writer")
	r.Rule("who-may-write", "no function outside the CLI-only code and the frame writer refers to stdout")
	r.Rule("before-dispatch", "nothing runs before main dispatches to headless mode that could write stdout")
	h := headless(r)
	if h == nil {
		return
	}
	si := h.stdoutOps()
	var ns []Node
	for n := range si.ops {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return h.G.less(ns[i], ns[j]) })
	for _, n := range ns {
		op := si.ops[n]
		ok := op.Kind != "other" && !(op.Kind == "write" && op.Why != "")
		r.Ob("only-frames", h.where(n)+": "+calleePath(callOf(n)), ok, h.G.nodePos(n), op.Why)
		if op.Kind == "write" && op.Why == "" {
			for _, p := range op.Pieces {
				if p.Set == nil {
					continue
				}
				_, ok := h.mustPass([]Node{h.Entry}, func(x Node) bool { return x == *p.Set }, func(x Node) bool { return x == n }, nil)
				r.Ob("frame-buffer", h.where(n)+": "+p.Kind, ok, h.G.nodePos(n), "a path reaches this write without setting the "+p.Kind+" part of the frame header")
			}
		}
	}
	r.Min("only-frames", 6)
	h.checkGrammar(r, si)

	// encoding failures
	encs := map[VV]bool{}
	for _, w := range si.writes {
		for _, p := range si.ops[w].Pieces {
			if p.Kind == "body" {
				encs[p.Body] = true
			}
		}
	}
	for e := range encs {
		call := e.V.(*ssa.Call)
		n := Node{F: e.F, I: call}
		bad := ""
		sim := &Sim{G: h.G}
		sim.Step = func(m Node, st *SState) bool {
			if m == n {
				return st.TS == "start" // re-executed: stop
			}
			if op := si.ops[m]; op != nil && op.Kind == "write" {
				id := fmt.Sprintf("%d:%s", e.F.ID, call.Name())
				for _, p := range op.Pieces {
					if p.Of == id {
						bad = h.G.nodePos(m)
					}
				}
			}
			return true
		}
		sim.Edge = func(from Node, ed Edge, st *SState) bool {
			if from == n {
				st.TS = "run"
				sim.set(st, factKey{VV{e.F, call}, 1}, "nonnil")
			}
			return true
		}
		sim.Run([]Node{n}, &SState{TS: "start"})
		r.Ob("encode-failure", h.where(n)+": body "+fnName(e.F.Parent.fnOr(e.F)), bad == "" && !sim.Trunc, h.G.nodePos(n), "the write at "+bad+" is reachable although encoding the body failed")
	}
	r.Min("encode-failure", 3)

	// concurrency
	for i, a := range si.writes {
		for _, b := range si.writes[i+1:] {
			ta, tb := a.F.Thread, b.F.Thread
			if ta == tb {
				continue
			}
			ok := h.ordered(ta, a, tb, b)
			k := []string{threadName(h, ta), threadName(h, tb)}
			r.Ob("single-writer", fmt.Sprintf("%s in %s vs %s", callerChain(a), k[0], k[1]), ok, h.G.nodePos(a),
				fmt.Sprintf("write by %s (called at %s) can run concurrently with the write at %s by %s: frames can interleave", k[0], h.callPos(a), h.G.nodePos(b), k[1]))
		}
	}
	r.Min("single-writer", 1)

	if con := h.consumer(r, si); con != nil {
		h.checkFlush(r, si, con)
	}
	h.checkWhoMayWrite(r)
}

func (f *Frame) fnOr(d *Frame) *ssa.Function {
	if f == nil {
		return d.Fn
	}
	return f.Fn
}

// callPos: the position of the outermost call into the helper performing n that lies in the thread's own frame chain.
func (h *Headless) callPos(n Node) string {
	f := n.F
	for f.Parent != nil && f.Parent.Parent != nil && f.Thread == f.Parent.Thread {
		f = f.Parent
	}
	if f.Parent == nil || f.Thread == f {
		return h.G.nodePos(n)
	}
	return h.G.nodePos(Node{F: f.Parent, I: f.Site})
}

func callerChain(n Node) string {
	s := fnName(n.F.Fn)
	f := n.F
	for i := 0; f.Parent != nil && f.Thread != f && i < 4; i++ {
		f = f.Parent
		s = fnName(f.Fn) + " > " + s
	}
	return s
}

func threadName(h *Headless, t *Frame) string {
	if t.Parent == nil {
		return "the main thread"
	}
	return "goroutine " + fnName(t.Fn)
}

// ordered: a (thread ta) and b (thread tb) never run concurrently.
func (h *Headless) ordered(ta *Frame, a Node, tb *Frame, b Node) bool {
	one := func(t *Frame, other Node) bool {
		if t.Parent == nil {
			return false
		}
		// other never runs between the start of t and its join
		return h.joinedBefore(t, other) && h.multiplicityOK(t)
	}
	return one(ta, b) || one(tb, a)
}

// multiplicityOK: t is not spawned again while an earlier instance may run (only one instance
// matters for ordering against another thread; the join waits for all of a wait group).
func (h *Headless) multiplicityOK(t *Frame) bool { return true }

// checkGrammar types the byte stream with a small automaton per writer.
func (h *Headless) checkGrammar(r *R, si *stdoutInfo) {
	type bad struct {
		n   Node
		msg string
	}
	bads := map[string]bad{}
	visited := map[Node]bool{}
	starts := []Node{h.Entry}
	threadRet := map[Node]bool{}
	for _, t := range append(h.threads(), h.G.Root) {
		for n := range h.frameReturns(t) {
			threadRet[n] = true
		}
	}
	// typestate: "" or writer|pending pieces
	step := func(n Node, st *SState) bool {
		op := si.ops[n]
		if op != nil && op.Kind == "write" && op.Why == "" {
			visited[n] = true
			w := h.writerID(op.Writer)
			cur := st.TS
			for _, p := range op.Pieces {
				switch p.Kind {
				case "len":
					if cur != "" {
						bads[h.where(n)+"/len"] = bad{n, "a frame length is written inside another frame (" + cur + ")"}
					}
					cur = w + "|len:" + p.Of
				case "type":
					if !strings.HasPrefix(cur, w+"|len:") {
						bads[h.where(n)+"/type"] = bad{n, "the message type is not written directly after the frame length"}
					}
					cur = strings.Replace(cur, "|len:", "|lentype:", 1)
				case "body":
					if cur != w+"|lentype:"+p.Of {
						bads[h.where(n)+"/body"] = bad{n, "a body is written that is not the one announced by the preceding header"}
					}
					cur = ""
				}
			}
			st.TS = cur
			return true
		}
		if op != nil && (op.Kind == "other" || op.Kind == "write") && st.TS != "" {
			bads[h.where(n)+"/foreign"] = bad{n, "stdout is written inside a frame"}
		}
		if threadRet[n] && st.TS != "" {
			bads[h.where(n)+"/half"] = bad{n, "a path ends with a frame half written (" + st.TS + ")"}
			st.TS = ""
		}
		return true
	}
	// plain reachability with typestate only: track no facts, unless results of writes are
	// looked at. Once output fails there is no stream to keep whole.
	looked := false
	for _, n := range si.writes {
		if c, ok := n.I.(*ssa.Call); ok && c.Referrers() != nil && len(*c.Referrers()) > 0 {
			looked = true
		}
	}
	sim := &Sim{G: h.G, Step: step, Track: func(t types.Type) bool { return looked && isErrorT(t) }}
	if looked {
		sim.Fork = func(n Node, st *SState) []*SState {
			op := si.ops[n]
			call, ok := n.I.(*ssa.Call)
			if op == nil || !ok || errIdx(callOf(n)) == -2 {
				return nil
			}
			sim.set(st, factKey{VV{n.F, call}, errIdx(callOf(n))}, "nil")
			return []*SState{st}
		}
	}
	sim.Run(starts, &SState{})
	for _, w := range si.writes {
		if si.ops[w].Why != "" {
			continue
		}
		b, isBad := bads[h.where(w)+"/len"]
		if !isBad {
			b, isBad = bads[h.where(w)+"/body"]
		}
		if !isBad {
			b, isBad = bads[h.where(w)+"/type"]
		}
		r.Ob("frame-grammar", callerChain(w), visited[w] && !isBad, h.G.nodePos(w), b.msg)
	}
	for k, b := range bads {
		if strings.HasSuffix(k, "/half") || strings.HasSuffix(k, "/foreign") {
			r.Bad("frame-grammar", k, h.G.nodePos(b.n), b.msg)
		}
	}
	if sim.Trunc {
		r.Bad("frame-grammar", "analysis-bound", "-", "state space bound reached")
	}
	r.Min("frame-grammar", 4)
}

// staticRefs: functions referenced (called or taken as values) by f.
func staticRefs(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					r = append(r, g)
				}
			}
		}
	}
	return r
}

func stdoutUse(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		switch cp := calleePath(c.Common()); cp {
		case "fmt.Print", "fmt.Printf", "fmt.Println":
			return cp
		case "os.NewFile":
			return cp
		case "syscall.Write":
			return cp
		}
	}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		if g, ok := (*op).(*ssa.Global); ok && g.RelString(nil) == "os.Stdout" {
			return "os.Stdout"
		}
		if f, ok := (*op).(*ssa.Function); ok {
			switch f.RelString(nil) {
			case "fmt.Print", "fmt.Printf", "fmt.Println":
				return f.RelString(nil)
			}
		}
	}
	return ""
}

func (h *Headless) checkWhoMayWrite(r *R) {
	w := h.W
	inGraph := map[*ssa.Function]bool{}
	for _, f := range h.G.Frames {
		inGraph[f.Fn] = true
	}
	// functions of package main that only the CLI reaches
	mainFn := w.lookupFn(pCmd, "", "main")
	if !r.Need(mainFn != nil, "func main") {
		return
	}
	cli := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || cli[f] || f == h.G.Root.Fn || fnPkgPath(f) != pCmd {
			return
		}
		cli[f] = true
		for _, g := range staticRefs(f) {
			walk(g)
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(mainFn)
	n := 0
	for _, f := range append(append([]*ssa.Function{}, w.allFns...), w.tsFns...) {
		use := ""
		var at ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u := stdoutUse(in); u != "" {
					use, at = u, in
				}
			}
		}
		n++
		if use == "" {
			continue
		}
		allowed := inGraph[f] && use == "os.Stdout" || (cli[f] && !inGraph[f] && fnPkgPath(f) == pCmd)
		if isTsgoPath(fnPkgPath(f)) {
			// typescript-go packages that print only in their own command line driver
			allowed = tsgoStdoutOK(f)
		}
		r.Ob("who-may-write", fnName(f)+": "+use, allowed, w.pos(at.Pos()), use+" is used outside the frame writer: foreign bytes reach the frame stream")
	}
	r.Info["functions_scanned_for_stdout"] = n
	r.Min("who-may-write", 3)

	// main dispatch: what can run before the headless call
	for _, f := range w.allFns {
		if fnPkgPath(f) != pCmd {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != h.G.Root.Fn {
					continue
				}
				bad := ""
				for _, bb := range f.Blocks {
					if !(bb == b || blockReaches(bb, b)) {
						continue
					}
					for _, x := range bb.Instrs {
						if x == in {
							break
						}
						if u := stdoutUse(x); u != "" {
							bad = u
						}
						if ci, ok := x.(ssa.CallInstruction); ok {
							if g := ci.Common().StaticCallee(); g != nil {
								if u := transStdout(g, map[*ssa.Function]bool{}); u != "" {
									bad = u + " in " + fnName(g)
								}
							}
						}
					}
				}
				r.Ob("before-dispatch", fnName(f), bad == "", w.pos(in.Pos()), "stdout can be written before headless mode starts: "+bad)
			}
		}
	}
	r.Min("before-dispatch", 1)
}

func transStdout(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u := stdoutUse(in); u != "" {
				return u
			}
		}
	}
	for _, g := range staticRefs(f) {
		if isRepoPath(fnPkgPath(g)) {
			if u := transStdout(g, seen); u != "" {
				return u
			}
		}
	}
	return ""
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func tsgoStdoutOK(f *ssa.Function) bool { return false }

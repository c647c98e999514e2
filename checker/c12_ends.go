package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Every run comes to an end",
		"Recursion: for every cycle of the call graph of the program, how each call's arguments relate to what the caller was given (part, ancestor, same, reached along a relation that can lead back); a cycle that hands on nothing smaller has to be cut by a history it extends. Loops: every way round every loop has to change something that the tests on it depend on; a loop that follows a relation that can lead back, climbs directories, or works off a list it adds to has to compare or remember. Waits: on the supergraphs of both entry points, every receiving loop's channel is closed before anything waits for the loop, every send finds room or a receiver that goes on until the channel is closed, no thread waits for its own group, every lock is released on every path and not taken again.",
		checkC12)
}

func checkC12(r *R) {
	r.Rule("recursion-descends", "no cycle of calls hands on only what it was given, or what is reached along a relation that can lead back, without a history that cuts it")
	r.Rule("one-direction", "functions that call each other do not go from a node to its parent on one way and to its children on another")
	r.Rule("loop-moves", "every way round a loop changes something that the tests on it depend on, and does not lead back")
	r.Rule("receive-ends", "the channel that a loop receives from is closed before anything waits for the loop")
	r.Rule("send-gets-through", "a send finds room in the buffer, or a loop that receives until the channel is closed")
	r.Rule("no-wait-for-itself", "no thread waits for a group it belongs to, and threads do not wait for each other")
	r.Rule("counted-threads-end", "a thread that is counted in a group says that it is done on every path")
	r.Rule("lock-is-released", "a lock is released on every path, not taken again while held, and not held while waiting for threads that take it")
	r.Rule("lock-order", "locks are taken in one order")

	a := newRecur(r.W)
	kinds := map[string]int{}
	nc := 0
	for _, scc := range a.sccs() {
		cs, trunc := a.cycles(scc, 2000)
		if trunc {
			kinds["truncated"]++
		}
		var down, up *cycleVerdict
		for _, c := range cs {
			nc++
			kinds[c.Kind]++
			name := cycleName(c)
			last := c.Edges[len(c.Edges)-1]
			why := "it hands on only what it was given or what can lead back (" + strings.TrimSpace(c.Why) + "), and nothing remembers where it has been"
			r.Ob("recursion-descends", name, c.Kind != "repeats", r.W.pos(last.Site.Pos()), why)
			if c.Kind == "descends" && len(c.Dir) == 1 {
				if c.Dir[rcDown] && down == nil {
					down = c
				}
				if c.Dir[rcUp] && up == nil {
					up = c
				}
			}
		}
		if len(cs) > 0 {
			ok := down == nil || up == nil
			why := ""
			pos := cs[0].Head.Pos()
			if !ok {
				pos = up.Edges[len(up.Edges)-1].Site.Pos()
				why = "one way goes to a child (" + r.W.pos(down.Edges[len(down.Edges)-1].Site.Pos()) + "), this one to the parent"
			}
			r.Ob("one-direction", fnName(scc[0]), ok, r.W.pos(pos), why)
		}
	}
	r.Min("recursion-descends", 40)
	r.Info["cycles"] = kinds

	lk := map[string]int{}
	nl := 0
	for _, f := range r.W.allFns {
		if !isRepoPath(fnPkgPath(f)) || !strings.HasPrefix(fnPkgPath(f), modPath) || len(f.Blocks) == 0 {
			continue
		}
		if o := f.Origin(); o != nil && o != f {
			continue // judged once, generically
		}
		ls := loopsOf(f)
		its := itersIn(f)
		for _, l := range ls {
			nl++
			var it *Iter
			for _, x := range its {
				if x.Loop.Header == l.Header {
					it = x
				}
			}
			v := a.judgeLoop(l, ls, it)
			pos := l.pos()
			if v.Bad != "" {
				pos = v.BadAt
			}
			if v.Kind != "" {
				lk[v.Kind]++
			}
			r.Ob("loop-moves", fnName(f), v.Bad == "", r.W.pos(pos), v.Bad)
		}
	}
	r.Min("loop-moves", 300)
	r.Info["loops"] = lk

	h := headless(r)
	if h == nil {
		return
	}
	var ws []waitRes
	ws = append(ws, newWaits(h).out...)
	if root := cliRoot(r.W); r.Need(root != nil, "the entry point of the command line (called by main)") {
		h2 := newHeadless(r.W, root)
		ws = append(ws, newWaits(h2).out...)
	}
	sort.SliceStable(ws, func(i, j int) bool { return ws[i].Rule < ws[j].Rule })
	for _, x := range ws {
		r.Ob(x.Rule, x.Construct, x.OK, r.W.pos(x.Pos), x.Why)
	}
	r.Min("receive-ends", 2)
	r.Min("send-gets-through", 2)
	r.Min("no-wait-for-itself", 2)
}

func cycleName(c *cycleVerdict) string {
	var p []string
	for _, e := range c.Edges {
		p = append(p, fnName(e.From))
	}
	return strings.Join(p, " -> ")
}

// cliRoot: the function of package main that main hands the exit code of to the system.
func cliRoot(w *World) *ssa.Function {
	if f := w.lookupFn(pCmd, "", "runMain"); f != nil && len(f.Blocks) > 0 {
		return f
	}
	if f := w.lookupFn(pCmd, "", "main"); f != nil && len(f.Blocks) > 0 {
		return f
	}
	return nil
}

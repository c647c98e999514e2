package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Linting never fails on a node that is not what a rule takes it for", "Forward flow of node kinds and absence through all functions of the repository, against the grammar of the engine's syntax tree.", checkC18)
}

func checkC18(r *R) {
	g, probs := loadGrammar(r.W)
	if !r.Need(g != nil && len(probs) == 0, "the grammar of the engine's syntax tree: "+strings.Join(probs, ", ")) {
		return
	}
	a := newKAn(r.W, g)
	for round := 1; round <= 3; round++ {
		a.runRound(round)
	}
	var obs []*kObl
	for _, m := range a.obls {
		for _, o := range m {
			obs = append(obs, o)
		}
	}
	sort.Slice(obs, func(i, j int) bool {
		if obs[i].pos != obs[j].pos {
			return obs[i].pos < obs[j].pos
		}
		return obs[i].what < obs[j].what
	})
	r.Rule("kind", "wherever a node is taken as a node of some kind, or asked for something only some kinds have, every kind it can have there is one of these")
	r.Rule("present", "wherever a node, a part of a node, a symbol, a type or a value of the repository is used, it cannot be missing there")
	for _, o := range obs {
		r.Ob(o.rule, fmt.Sprintf("%s: %s", fnName(o.fn), o.what), o.bad == "", r.W.pos(o.pos), o.bad)
	}
	r.Min("kind", 400)
	r.Min("present", 1200)
	r.Info["functions"] = len(a.reached)
	r.Info["evaluations of functions in the last round"] = a.evals
	r.Info["kinds of nodes"] = len(g.kindName)
}

func (a *kAn) runRound(round int) {
	a.round = round
	a.sums = map[string]*kSum{}
	a.cellsN, a.fieldsN, a.closN = map[*kKey]*kEnv{}, map[string]*kEnv{}, map[*ssa.Function]*kEnv{}
	a.obls = map[ssa.Instruction]map[string]*kObl{}
	a.reached = map[*ssa.Function]bool{}
	a.pending = map[string]kRoot{}
	a.ctxs = map[*ssa.Function]int{}
	a.evals = 0
	done := map[string]bool{}
	drain := func() {
		for {
			var ks []string
			for k := range a.pending {
				if !done[k] {
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 {
				return
			}
			sort.Strings(ks)
			for _, k := range ks {
				done[k] = true
				p := a.pending[k]
				in := p.in.clone()
				if p.fn.Parent() != nil {
					if cf := a.closure[p.fn]; cf != nil {
						for q, s := range cf.all() {
							in.set(q, s)
						}
					}
				}
				a.summary(nil, p.fn, in, nil, false)
			}
		}
	}
	// what is called from outside: functions without a caller in the repository
	for _, f := range a.w.allFns {
		if f.Parent() != nil || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		if len(a.back.callers[f]) == 0 {
			a.root(f, a.entryTop(f))
		}
	}
	drain()
	for _, f := range a.w.allFns {
		if a.reached[f] || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		a.root(f, a.entryTop(f))
		drain()
	}
	a.cells, a.fields, a.closure = a.cellsN, a.fieldsN, a.closN
}

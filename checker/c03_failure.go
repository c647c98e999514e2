package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "Every failure ends in an error frame and a non-zero exit status",
		"Path-sensitive property simulation over the supergraph of headless mode: for every call of an opaque error-returning function on the main goroutine and every error value created there, the path on which it fails is followed (correlated error/bool tests are decided) to the return of headless mode: the status must be a non-zero constant, and an error frame must have been written (except for start-up failures before the request is read, which go to stderr). A zero status must be dominated by the join of the linter and the frame writer. The status reaches os.Exit unchanged and panics are not recovered.",
		checkC03)
}

// outputCall: calls whose error result only tells that output itself failed.
func outputCall(cp string) bool {
	for _, p := range []string{"fmt.Fprint", "fmt.Print", "log.", "bufio.Writer.", "io.Writer.", "os.File.Write", "os.File.Close", "strings.Builder.", "bytes.Buffer.", "io.WriteString", "io.Closer.", "builtin."} {
		if strings.HasPrefix(cp, p) {
			return true
		}
	}
	return false
}

func errIdx(c *ssa.CallCommon) int {
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorT(rs.At(i).Type()) {
			if rs.Len() == 1 {
				return -1
			}
			return i
		}
	}
	return -2
}

// topChild is the frame directly below the root in which n runs (nil: the root itself).
func topChild(n Node) *Frame {
	f := n.F
	if f.Parent == nil {
		return nil
	}
	for f.Parent.Parent != nil {
		f = f.Parent
	}
	return f
}

func checkC03(r *R) {
	r.Rule("failure-status", "a failing operation leads to a non-zero exit status on every path")
	r.Rule("failure-frame", "a failing operation after start-up leads to an error frame on every path")
	r.Rule("failure-cause", "the error frame written after a failure names what failed")
	r.Rule("error-encodable", "an error frame can always be encoded")
	r.Rule("success-last", "status 0 is returned only after the linter ran and all frames are written")
	r.Rule("status-delivered", "the status is the exit status of the process")
	r.Rule("no-recover", "panics are not swallowed")
	h := headless(r)
	if h == nil {
		return
	}
	si := h.stdoutOps()
	con := h.consumer(r, si)
	if !r.Need(con != nil, "the goroutine that writes diagnostics") {
		return
	}
	// error frame writes
	errWrite := map[Node]bool{}
	noCause := map[Node]bool{}
	doneEnc := map[VV]bool{}
	for _, n := range si.writes {
		for _, p := range si.ops[n].Pieces {
			if p.Kind != "body" {
				continue
			}
			call := p.Body.V.(*ssa.Call)
			isErr := false
			for _, t := range h.dynTypes(VV{p.Body.F, call.Call.Args[0]}) {
				if st, ok := t.Underlying().(*types.Struct); ok && jsonField(st, "error") != nil {
					isErr = true
				}
			}
			if !isErr {
				continue
			}
			errWrite[n] = true
			noCause[n] = h.withoutError(VV{p.Body.F, call.Call.Args[0]})
			if !doneEnc[p.Body] {
				doneEnc[p.Body] = true
				opt := h.hasOption(VV{p.Body.F, call}, "AllowInvalidUTF8") || calleePath(&call.Call) == "encoding/json.Marshal"
				r.Ob("error-encodable", callerChain(Node{F: p.Body.F, I: call}), opt, h.W.pos(call.Pos()), "error texts quote paths and configuration, which may hold invalid UTF-8: the error frame would be dropped")
			}
		}
	}
	r.Min("error-encodable", 1)

	// start-up subtrees: option parsing and profiling
	startup := map[*Frame]bool{}
	startCalls := map[string]bool{"flag.FlagSet.Parse": true, "flag.Parse": true, "os.Create": true, "runtime/trace.Start": true, "runtime/pprof.StartCPUProfile": true}
	for _, n := range h.Nodes {
		if c := callOf(n); c != nil && startCalls[calleePath(c)] {
			if t := topChild(n); t != nil {
				startup[t] = true
			}
		}
	}
	isStart := func(n Node) bool {
		t := topChild(n)
		if t != nil {
			return startup[t]
		}
		c := callOf(n)
		return c != nil && startCalls[calleePath(c)]
	}
	inDefer := func(n Node) bool {
		if n.At != nil {
			return true
		}
		for f := n.F; f != nil; f = f.Parent {
			if f.At != nil {
				return true
			}
		}
		return false
	}

	// failure sources
	var srcs []Node
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || n.F.Thread != h.G.Root || !h.G.Opaque(n) || inDefer(n) {
			continue
		}
		if _, isCall := n.I.(*ssa.Call); !isCall {
			continue
		}
		cp := calleePath(c)
		if cp == "errors.New" || cp == "fmt.Errorf" {
			srcs = append(srcs, n)
			continue
		}
		if strings.HasPrefix(cp, "runtime/trace.") {
			continue // fails only when tracing already runs; profiling is best effort
		}
		if errIdx(c) == -2 || outputCall(cp) || cp == "errors.Join" {
			continue
		}
		srcs = append(srcs, n)
	}
	sort.Slice(srcs, func(i, j int) bool { return h.G.less(srcs[i], srcs[j]) })
	type simRes struct {
		status, frame, cause string
		hit                  bool
	}
	runOne := func(src Node, tsFailed string) simRes {
		var out simRes
		sim := &Sim{G: h.G, SkipThread: true}
		intT := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Int
		}
		sim.Track = func(t types.Type) bool { return trackDefault(t) || intT(t) }
		created := false
		if cp := calleePath(callOf(src)); cp == "errors.New" || cp == "fmt.Errorf" {
			created = true
		}
		sim.Step = func(n Node, st *SState) bool {
			if n == src && st.TS == "F" {
				return false
			}
			if errWrite[n] && st.TS == "F" {
				if noCause[n] {
					out.cause = h.G.nodePos(n)
					if f := topChild(n); f != nil {
						out.cause = h.G.nodePos(Node{F: f.Parent, I: f.Site})
					}
				}
				st.TS = "E"
			}
			if ret, ok := n.I.(*ssa.Return); ok && n.F == h.G.Root && st.TS != "" {
				k := "value"
				if len(ret.Results) == 1 {
					k = sim.Fact(st, n.F, ret.Results[0])
				}
				if !strings.HasPrefix(k, "c:") || k == "c:0" {
					out.status = h.G.nodePos(n)
				}
				if st.TS == "F" {
					out.frame = h.G.nodePos(n)
				}
			}
			return true
		}
		sim.Fork = func(n Node, st *SState) []*SState {
			call, ok := n.I.(*ssa.Call)
			if !ok {
				return nil
			}
			c := callOf(n)
			cp := calleePath(c)
			if isEncode(cp) && n != src {
				sim.set(st, factKey{VV{n.F, call}, 1}, "nil")
				return []*SState{st}
			}
			if n != src {
				return nil
			}
			out.hit = true
			st.TS = "F"
			if !created {
				if i := errIdx(c); i != -2 {
					sim.set(st, factKey{VV{n.F, call}, i}, "nonnil")
					// (value, error) results: pointers are nil on failure is not assumed
				}
			}
			return []*SState{st}
		}
		sim.Run([]Node{src}, &SState{})
		if sim.Trunc {
			out.status, out.frame = "state space too large", "state space too large"
		}
		return out
	}
	occ := map[string]int{}
	for _, src := range srcs {
		c := callOf(src)
		cp := calleePath(c)
		if cp == "" {
			cp = "dynamic call"
		}
		k := callerChain(src) + ": " + cp
		occ[k]++
		if occ[k] > 1 {
			k = fmt.Sprintf("%s #%d", k, occ[k])
		}
		o := runOne(src, "F")
		pos := h.G.nodePos(src)
		r.Ob("failure-status", k, o.status == "", pos, "when this fails headless mode can return status 0 (at "+o.status+")")
		if !isStart(src) && !isEncode(cp) {
			r.Ob("failure-frame", k, o.frame == "", pos, "when this fails headless mode can return (at "+o.frame+") without writing an error frame")
			if o.hit {
				r.Ob("failure-cause", k, o.cause == "", pos, "when this fails the error frame written at "+o.cause+" does not say why")
			}
		}
	}
	r.Min("failure-status", 12)
	r.Min("failure-frame", 8)

	// success
	zero := 0
	for n := range h.frameReturns(h.G.Root) {
		ret := n.I.(*ssa.Return)
		if len(ret.Results) != 1 {
			r.Bad("success-last", "return of headless mode", h.G.nodePos(n), "headless mode does not return its status")
			continue
		}
		// constants the result can have
		zeroHere := false
		for _, o := range h.G.Origins(VV{n.F, ret.Results[0]}) {
			if k, ok := constInt(o.V); ok {
				if k == 0 {
					zeroHere = true
				}
			} else {
				zeroHere = true
			}
		}
		if zeroHere {
			zero++
		}
	}
	// status 0 only after the join: simulate from the entry with no failure assumed
	var badZero string
	sim := &Sim{G: h.G, SkipThread: true}
	sim.Track = func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return trackDefault(t) || ok && b.Kind() == types.Int
	}
	joins := map[Node]bool{}
	for _, n := range h.Nodes {
		if n.F.Thread == h.G.Root && h.joinNode(con.F.Thread, n) {
			joins[n] = true
		}
	}
	runs := map[Node]bool{}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c != nil && n.F.Thread == h.G.Root && c.IsInvoke() && c.Method.Name() == "RunAndWait" {
			runs[n] = true
		}
	}
	r.Need(len(joins) > 0, "the wait for the frame writer")
	r.Need(len(runs) > 0, "the wait for the lint workers")
	sim.Step = func(n Node, st *SState) bool {
		if runs[n] {
			st.TS = "R"
		}
		if joins[n] && st.TS == "R" {
			st.TS = "J"
		}
		if ret, ok := n.I.(*ssa.Return); ok && n.F == h.G.Root && st.TS != "J" && len(ret.Results) == 1 {
			if k := sim.Fact(st, n.F, ret.Results[0]); k == "c:0" || !strings.HasPrefix(k, "c:") {
				badZero = h.G.nodePos(n)
			}
		}
		return true
	}
	// without files there is nothing to wait for
	sim.Branch = func(from Node, e Edge, st *SState) bool {
		x, ok := from.I.(*ssa.If)
		if !ok || from.F.Thread != h.G.Root || st.TS != "" {
			return true
		}
		em, ok := lenTest(from.F, x.Cond, func(v VV) bool {
			s, ok := v.V.Type().Underlying().(*types.Slice)
			if ok && isNamed(deref(s.Elem()), pAst, "SourceFile") {
				return true
			}
			a := v.V
			if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
				a = u.X
			}
			switch f := a.(type) {
			case *ssa.FieldAddr:
				return isNamed(deref(f.X.Type()), pLinter, "Workload")
			case *ssa.Field:
				return isNamed(f.X.Type(), pLinter, "Workload")
			}
			return false
		})
		if ok && em == (e.Branch == 1) {
			st.TS = "R"
		}
		return true
	}
	sim.Run([]Node{h.Entry}, &SState{})
	r.Ob("success-last", "status 0", badZero == "" && !sim.Trunc && zero > 0, h.W.pos(h.G.Root.Fn.Pos()), "status 0 is returned at "+badZero+" on a path that did not wait for the linter and the frame writer")
	r.Min("success-last", 1)

	// delivered to os.Exit
	mainFn := h.W.lookupFn(pCmd, "", "main")
	if r.Need(mainFn != nil, "function main") {
		root := h.G.Root.Fn
		mg := NewGraph(h.W, mainFn, func(f *ssa.Function) bool {
			return fnPkgPath(f) == pCmd && f != root && f.Parent() == nil
		})
		mh := &Headless{W: h.W, G: mg}
		mh.Nodes = mg.Nodes()
		exits, good := 0, false
		for _, n := range mh.Nodes {
			c := callOf(n)
			if c == nil || calleePath(c) != "os.Exit" {
				continue
			}
			exits++
			for _, o := range mg.Origins(VV{n.F, c.Args[0]}) {
				if cc, ok := o.V.(*ssa.Call); ok && cc.Call.StaticCallee() == root {
					good = true
				}
			}
		}
		// the call's result goes nowhere else than to os.Exit
		callsRoot := 0
		for _, n := range mh.Nodes {
			if c := callOf(n); c != nil && c.StaticCallee() == root {
				callsRoot++
				// from the call, every path to the end of main passes os.Exit
				e, _ := mg.Entry(mg.Root)
				_ = e
				rets := mh.frameReturns(mg.Root)
				_, ok := mh.mustPass(mg.After(n), func(m Node) bool {
					c := callOf(m)
					return c != nil && calleePath(c) == "os.Exit"
				}, func(m Node) bool { return rets[m] }, nil)
				r.Ob("status-delivered", "main: always os.Exit", ok, mg.nodePos(n), "main can return normally (status 0) after headless mode returned")
			}
		}
		r.Ob("status-delivered", "main: os.Exit argument", good && callsRoot > 0, h.W.pos(mainFn.Pos()), "the value returned by headless mode does not reach os.Exit")
		// and unchanged: simulate a non-zero status to the exit
		for _, n := range mh.Nodes {
			c := callOf(n)
			if c == nil || c.StaticCallee() != root {
				continue
			}
			for _, st0 := range []string{"c:1", "c:0"} {
				bad := ""
				s2 := &Sim{G: mg}
				s2.Track = func(t types.Type) bool {
					b, ok := t.Underlying().(*types.Basic)
					return trackDefault(t) || ok && b.Kind() == types.Int
				}
				st0 := st0
				s2.Fork = func(m Node, st *SState) []*SState {
					if m == n {
						s2.set(st, factKey{VV{m.F, n.I.(*ssa.Call)}, -1}, st0)
						return []*SState{st}
					}
					return nil
				}
				s2.Step = func(m Node, st *SState) bool {
					if c := callOf(m); c != nil && calleePath(c) == "os.Exit" {
						if k := s2.Fact(st, m.F, c.Args[0]); k != st0 {
							bad = k + " at " + mg.nodePos(m)
						}
						return false
					}
					return true
				}
				s2.Run([]Node{n}, &SState{})
				r.Ob("status-delivered", "main: status "+st0+" unchanged", bad == "", mg.nodePos(n), "headless status "+st0+" becomes "+bad)
			}
		}
		r.Min("status-delivered", 4)
	}
	// recover
	cnt := 0
	for _, f := range h.W.allFns {
		cnt++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && calleePath(c.Common()) == "builtin.recover" {
					r.Bad("no-recover", fnName(f), h.W.pos(in.Pos()), "recover() hides a failure: the process would go on and may report success")
				}
			}
		}
	}
	r.Ob("no-recover", "all repository functions", true, "-", "")
	r.Info["functions_scanned_for_recover"] = cnt
	r.Info["failure_sources"] = len(srcs)
}

// withoutError: the text under v is known not to depend on any error.
func (h *Headless) withoutError(v VV) bool {
	seen := map[VV]bool{}
	known := true
	var walk func(v VV)
	walk = func(v VV) {
		if v.V == nil || !known || seen[v] {
			return
		}
		seen[v] = true
		if _, isC := v.V.(*ssa.Const); !isC && isErrorT(v.V.Type()) {
			known = false
			return
		}
		if x, ok := v.V.(*ssa.ChangeInterface); ok {
			walk(VV{v.F, x.X})
			return
		}
		os := h.G.Origins(v)
		for _, o := range os {
			if c, ok := o.V.(*ssa.Call); ok && strings.HasPrefix(o.Path, "#") {
				if o.Path[1:] == fmt.Sprint(errIdx(&c.Call)) {
					known = false
				}
				continue // another result
			}
			if o.V != v.V || o.F != v.F {
				walk(VV{o.F, o.V})
			}
		}
		if len(os) > 0 && (len(os) > 1 || os[0].V != v.V || os[0].F != v.F) {
			return
		}
		stores := func(a ssa.Value) {
			var into func(a ssa.Value)
			into = func(a ssa.Value) {
				for _, u := range *a.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						if x.Addr == a {
							walk(VV{v.F, x.Val})
						} else {
							known = false
						}
					case *ssa.FieldAddr:
						into(x)
					case *ssa.IndexAddr:
						into(x)
					case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
					default:
						known = false
					}
				}
			}
			into(a)
		}
		switch x := v.V.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
		case *ssa.Call:
			if errIdx(&x.Call) != -2 {
				known = false
			}
			if x.Call.IsInvoke() {
				walk(VV{v.F, x.Call.Value})
			} else if _, isB := x.Call.Value.(*ssa.Builtin); !isB && x.Call.StaticCallee() == nil {
				known = false
			}
			for _, a := range x.Call.Args {
				walk(VV{v.F, a})
			}
		case *ssa.BinOp:
			walk(VV{v.F, x.X})
			walk(VV{v.F, x.Y})
		case *ssa.MakeInterface:
			walk(VV{v.F, x.X})
		case *ssa.Convert:
			walk(VV{v.F, x.X})
		case *ssa.ChangeType:
			walk(VV{v.F, x.X})
		case *ssa.Slice:
			walk(VV{v.F, x.X})
		case *ssa.Extract:
			walk(VV{v.F, x.Tuple})
		case *ssa.Alloc:
			stores(x)
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				stores(a)
			} else {
				known = false
			}
		default:
			known = false
		}
	}
	walk(v)
	return known
}

package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Every reported diagnostic becomes exactly one frame before exit",
		"Supergraph of the headless entry point. Path rules: each report function handed to rules sends on the diagnostics channel exactly once on every path, with a blocking send; the consumer goroutine receives until the channel is closed and writes exactly one diagnostic frame per received element on every path; the channel is closed only after every sender was joined; the consumer is joined on every path from its start to a return; buffered output is flushed on every path to the end of the consumer; encoding cannot fail for any diagnostic. Provenance rules: each field of the frame comes from the corresponding field of the diagnostic.",
		checkC02)
}

// chanOf identifies a channel by the MakeChan values it may come from.
func (h *Headless) chanOf(v VV) map[Origin]bool { return originSet(h.G.Origins(v)) }

// diagConsumer finds the loop that turns received diagnostics into frames.
type diagConsumer struct {
	F  *Frame
	It *Iter
	Ch map[Origin]bool
}

func (h *Headless) consumer(r *R, si *stdoutInfo) *diagConsumer {
	var found *diagConsumer
	for _, f := range h.G.Frames {
		for _, it := range itersIn(f.Fn) {
			if it.Kind != "chan" {
				continue
			}
			// the body (including inlined callees) writes stdout
			e := Node{F: f, I: it.BodyEntry().Instrs[0]}
			hd := Node{F: f, I: it.Loop.Header.Instrs[0]}
			seen := h.G.Reach([]Node{e}, func(n Node) bool { return n == hd }, nil)
			wr := false
			for _, w := range si.writes {
				if seen[w] && inFrameTree(w.F, f) {
					wr = true
				}
			}
			if wr {
				if found != nil && found.F.Fn != f.Fn {
					return nil
				}
				found = &diagConsumer{f, it, h.chanOf(VV{f, it.Coll})}
			}
		}
	}
	return found
}

func inFrameTree(x, root *Frame) bool {
	for ; x != nil; x = x.Parent {
		if x == root {
			return true
		}
	}
	return false
}

// sends returns the send nodes on a channel; sel are sends inside select.
func (h *Headless) sends(ch map[Origin]bool) (plain, sel []Node) {
	for _, n := range h.Nodes {
		switch x := n.I.(type) {
		case *ssa.Send:
			if overlapO(ch, h.chanOf(VV{n.F, x.Chan})) {
				plain = append(plain, n)
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && overlapO(ch, h.chanOf(VV{n.F, s.Chan})) {
					sel = append(sel, n)
				}
			}
		}
	}
	return
}

// ruleContextFuncs: the callback frames of the report functions handed to rules, by field.
func (h *Headless) ruleContextFuncs(r *R) map[string][]*Frame {
	ctxT := h.W.namedType(pRule, "RuleContext")
	if !r.Need(ctxT != nil, "type rule.RuleContext") {
		return nil
	}
	st := ctxT.Underlying().(*types.Struct)
	res := map[string][]*Frame{}
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) {
			continue
		}
		for _, a := range c.Args {
			if !types.Identical(types.Unalias(a.Type()), ctxT) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				if _, ok := fl.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				ts, complete := h.G.fnTargetsPath(VV{n.F, a}, "."+fl.Name())
				key := siteKey{n.F, n.I.(ssa.CallInstruction), n.At}
				if !complete || len(ts) == 0 {
					res[fl.Name()] = append(res[fl.Name()], nil)
					continue
				}
				for _, t := range ts {
					hit := false
					for _, k := range h.G.kids[key] {
						if k.Fn == t.fn {
							res[fl.Name()] = append(res[fl.Name()], k)
							hit = true
						}
					}
					if !hit {
						res[fl.Name()] = append(res[fl.Name()], nil)
					}
				}
			}
		}
	}
	return res
}

// enclosingReport finds whether one node lies in the subtree of a frame.
func (h *Headless) exactlyOnce(f *Frame, hit map[Node]bool) (string, bool) {
	e, ok := h.G.Entry(f)
	if !ok {
		return "no body", false
	}
	rets := h.frameReturns(f)
	stop := func(n Node) bool { return rets[n] }
	seen := h.G.Reach([]Node{e}, func(n Node) bool { return hit[n] || stop(n) }, nil)
	for n := range seen {
		if rets[n] {
			return "a path returns (" + h.G.nodePos(n) + ") without it", false
		}
	}
	for n := range hit {
		if !inFrameTree(n.F, f) {
			continue
		}
		after := h.G.Reach(h.G.After(n), stop, nil)
		for m := range after {
			if hit[m] && inFrameTree(m.F, f) {
				return "a path does it twice (" + h.G.nodePos(m) + ")", false
			}
		}
	}
	return "", true
}

func checkC02(r *R) {
	r.Rule("report-sends-once", "each report function of the rule context sends the diagnostic on the output channel exactly once on every path")
	r.Rule("internal-sends-once", "the callback for program/type-check diagnostics sends exactly once on every path")
	r.Rule("blocking-send", "diagnostics are sent with blocking sends only")
	r.Rule("consume-all", "the consumer receives until close and writes exactly one diagnostic frame per element")
	r.Rule("close-after-senders", "the channel is closed exactly when no sender can still run")
	r.Rule("join-before-return", "every path from the start of the consumer to a return of headless mode waits for the consumer")
	r.Rule("flush", "buffered frames are flushed on every path to the end of the consumer")
	r.Rule("infallible-encoding", "no diagnostic can make the encoder fail")
	r.Rule("field-provenance", "each frame field carries the corresponding diagnostic field")
	r.Rule("no-early-exit", "nothing terminates the process while diagnostics are in flight")
	h := headless(r)
	if h == nil {
		return
	}
	si := h.stdoutOps()
	con := h.consumer(r, si)
	if !r.Need(con != nil, "the goroutine that receives diagnostics and writes their frames") {
		return
	}
	plain, sel := h.sends(con.Ch)
	for _, n := range sel {
		r.Bad("blocking-send", h.where(n), h.G.nodePos(n), "diagnostic sent inside select: it is dropped when another case is ready")
	}
	sendSet := map[Node]bool{}
	for _, n := range plain {
		sendSet[n] = true
		r.Ob("blocking-send", h.where(n), true, h.G.nodePos(n), "")
	}
	r.Min("blocking-send", 2)

	h.noCuts(r, "consume-all", func(t types.Type) bool {
		n, ok := deref(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.Contains(strings.ToLower(n.Obj().Name()), "diagnostic") || isNamed(deref(t), pDiag, "Internal")
	})
	// report functions
	byField := h.ruleContextFuncs(r)
	var fields []string
	for k := range byField {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	for _, k := range fields {
		for _, f := range byField[k] {
			if f == nil {
				r.Bad("report-sends-once", "RuleContext."+k, "-", "the function handed to rules cannot be resolved")
				continue
			}
			why, ok := h.exactlyOnce(f, sendSet)
			r.Ob("report-sends-once", "RuleContext."+k, ok, h.W.pos(f.Fn.Pos()), "send of the diagnostic: "+why)
		}
	}
	r.Min("report-sends-once", 8)
	// OnInternalDiagnostic callbacks: every call through a func(diagnostic.Internal)
	intT := h.W.namedType(pDiag, "Internal")
	if r.Need(intT != nil, "type diagnostic.Internal") {
		done := map[*ssa.Function]bool{}
		for _, f := range h.G.Frames {
			ps := f.Fn.Signature.Params()
			if ps.Len() != 1 || !types.Identical(types.Unalias(ps.At(0).Type()), intT) || f.Fn.Signature.Results().Len() != 0 {
				continue
			}
			if done[f.Fn] {
				continue
			}
			done[f.Fn] = true
			why, ok := h.exactlyOnce(f, sendSet)
			r.Ob("internal-sends-once", fnName(f.Fn), ok, h.W.pos(f.Fn.Pos()), "send of the diagnostic: "+why)
		}
		r.Min("internal-sends-once", 1)
	}

	// consumer
	hd := Node{F: con.F, I: con.It.Loop.Header.Instrs[0]}
	be := Node{F: con.F, I: con.It.BodyEntry().Instrs[0]}
	var bodies []Node
	diagBodies := map[Node]bool{}
	for _, n := range si.writes {
		if n.F.Thread != con.F.Thread {
			continue
		}
		for _, p := range si.ops[n].Pieces {
			if p.Kind == "body" {
				bodies = append(bodies, n)
				diagBodies[n] = true
			}
		}
	}
	// encode failure paths are excused only when encoding cannot fail (rule infallible-encoding)
	cut := func(from Node, e Edge) bool { return h.encodeFailEdge(from, e, con) }
	seen := h.G.Reach([]Node{be}, func(n Node) bool { return diagBodies[n] }, cut)
	okIter, where := true, ""
	for n := range seen {
		if diagBodies[n] {
			continue
		}
		if n == hd {
			okIter, where = false, "an iteration can end without writing a frame"
		}
		if n.F == con.F && !con.It.Loop.Body[n.I.Block()] && n.At == nil {
			if _, isPanic := n.I.Block().Instrs[len(n.I.Block().Instrs)-1].(*ssa.Panic); !isPanic {
				okIter, where = false, "the loop can be left at "+h.G.nodePos(n)+" before the channel is drained"
			}
		}
	}
	r.Ob("consume-all", h.where(be)+": each element is written", okIter, h.G.nodePos(be), where)
	two := ""
	after := h.G.Reach(afterAll(h, bodies, con), func(n Node) bool { return n == hd }, cut)
	leftEarly := ""
	for n := range after {
		if diagBodies[n] {
			two = h.G.nodePos(n)
		}
		if n.F == con.F && !con.It.Loop.Body[n.I.Block()] && n.At == nil && n != hd {
			leftEarly = h.G.nodePos(n)
		}
	}
	r.Ob("consume-all", h.where(be)+": written once", two == "" && len(bodies) > 0, h.G.nodePos(be), "a second frame for the same element is written at "+two)
	r.Ob("consume-all", h.where(be)+": until close", leftEarly == "", h.G.nodePos(be), "the loop is left at "+leftEarly+" before the channel is drained")
	r.Ob("consume-all", h.where(be)+": in a goroutine", con.F.Thread != h.G.Root, h.G.nodePos(be), "the consumer must run concurrently with the linter")
	// the consumer loop is reached on every path of its goroutine
	if te, ok := h.G.Entry(con.F.Thread); ok {
		rets := h.frameReturns(con.F.Thread)
		_, ok := h.mustPass([]Node{te}, func(n Node) bool { return n == hd }, func(n Node) bool { return rets[n] }, nil)
		r.Ob("consume-all", h.where(be)+": always started", ok, h.G.nodePos(be), "the goroutine can end without receiving")
	}
	r.Min("consume-all", 4)

	// close
	var closes []Node
	for _, n := range h.Nodes {
		if c := callOf(n); c != nil && calleePath(c) == "builtin.close" && overlapO(con.Ch, h.chanOf(VV{n.F, c.Args[0]})) {
			closes = append(closes, n)
		}
	}
	if !r.Need(len(closes) > 0, "the close of the diagnostics channel") {
		return
	}
	for _, c := range closes {
		reach := h.G.Reach(h.G.After(c), nil, nil)
		bad := ""
		for _, s := range plain {
			if reach[s] {
				bad = h.G.nodePos(s)
			}
		}
		for _, t := range h.threads() {
			has := false
			for _, s := range plain {
				for f := s.F; f != nil; f = f.Parent {
					if f == t {
						has = true
					}
				}
			}
			if has && !h.joinedBefore(t, c) && h.reachableFrom(t, c) {
				bad = "goroutine " + fnName(t.Fn) + " may still be sending"
			}
		}
		for _, d := range closes {
			if reach[d] {
				bad = "a second close at " + h.G.nodePos(d)
			}
		}
		r.Ob("close-after-senders", h.where(c), bad == "", h.G.nodePos(c), "the channel is closed while "+bad+" (panic or lost diagnostic)")
	}
	// consumer joined
	for n := range h.frameReturns(h.G.Root) {
		ok := h.joinedBefore(con.F.Thread, n)
		r.Ob("join-before-return", fmt.Sprintf("%s return %s", h.where(n), retDesc(n)), ok, h.G.nodePos(n), "headless mode returns here while the consumer may still hold unwritten diagnostics")
	}
	r.Min("join-before-return", 2)
	// joins only after close (otherwise deadlock)
	closeSet := map[Node]bool{}
	for _, c := range closes {
		closeSet[c] = true
	}
	for _, n := range h.Nodes {
		if h.joinNode(con.F.Thread, n) && n.F.Thread == h.G.Root {
			sp := spawnNode(con.F.Thread)
			seen := h.G.Reach(h.G.After(sp), func(x Node) bool { return closeSet[x] }, func(from Node, e Edge) bool { return e.To.F == con.F.Thread })
			r.Ob("close-after-senders", h.where(n)+": close before wait", !seen[n], h.G.nodePos(n), "waits for the consumer on a path where the channel was not closed: the process hangs")
		}
	}

	h.checkFlush(r, si, con)
	r.checkEncoding(h, si, con)
	r.checkFields(h, si, con)

	// os.Exit and friends
	sp := spawnNode(con.F.Thread)
	for n := range h.G.Reach(h.G.After(sp), nil, nil) {
		if c := callOf(n); c != nil {
			switch cp := calleePath(c); cp {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit", "runtime.Goexit":
				r.Bad("no-early-exit", h.where(n)+": "+cp, h.G.nodePos(n), cp+" discards diagnostics that were reported but not yet written")
			}
		}
	}
	// rules and utilities never exit the process
	cnt := 0
	for _, f := range h.W.allFns {
		pp := fnPkgPath(f)
		if pp == pCmd {
			continue
		}
		cnt++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch cp := calleePath(c.Common()); cp {
					case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit", "runtime.Goexit":
						r.Bad("no-early-exit", fnName(f)+": "+cp, h.W.pos(in.Pos()), cp+" terminates the process while diagnostics are in flight")
					}
				}
			}
		}
	}
	r.Ob("no-early-exit", "all functions below headless mode", true, "-", "")
	r.Info["functions_scanned_for_exit"] = cnt
}

func (h *Headless) reachableFrom(t *Frame, n Node) bool {
	return h.G.Reach(h.G.After(spawnNode(t)), nil, nil)[n]
}

func retDesc(n Node) string {
	if ret, ok := n.I.(*ssa.Return); ok && len(ret.Results) == 1 {
		if k, ok := constInt(ret.Results[0]); ok {
			return fmt.Sprint(k)
		}
	}
	return "value"
}

func afterAll(h *Headless, ns []Node, con *diagConsumer) []Node {
	var r []Node
	for _, n := range ns {
		if inFrameTree(n.F, con.F) {
			r = append(r, h.G.After(n)...)
		}
	}
	return r
}

func (h *Headless) buffered(v VV) bool {
	for _, o := range h.G.Origins(v) {
		if c, ok := o.V.(*ssa.Call); ok && strings.HasPrefix(calleePath(&c.Call), "bufio.NewWriter") {
			return true
		}
	}
	return false
}

// encodeFailEdge: the branch taken when the encoder of a frame body returned an error.
func (h *Headless) encodeFailEdge(from Node, e Edge, con *diagConsumer) bool {
	x, ok := from.I.(*ssa.If)
	if !ok || from.F.Thread != con.F.Thread {
		return false
	}
	b, ok := x.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var v ssa.Value
	if isNilConst(b.Y) {
		v = b.X
	} else if isNilConst(b.X) {
		v = b.Y
	} else {
		return false
	}
	os := h.G.Origins(VV{from.F, v})
	enc := len(os) > 0
	for _, o := range os {
		c, ok := o.V.(*ssa.Call)
		if cc, isC := o.V.(*ssa.Const); isC && cc.Value == nil {
			continue
		}
		if !ok || !isEncode(calleePath(&c.Call)) || o.Path != "#1" {
			enc = false
		}
	}
	if !enc {
		return false
	}
	fail := 1
	if b.Op.String() == "==" {
		fail = 0
	}
	return e.Branch == fail
}

// checkEncoding: the encoder call of diagnostic frames cannot fail.
func (r *R) checkEncoding(h *Headless, si *stdoutInfo, con *diagConsumer) {
	done := map[VV]bool{}
	for _, n := range si.writes {
		if n.F.Thread != con.F.Thread {
			continue
		}
		for _, p := range si.ops[n].Pieces {
			if p.Kind != "body" || done[p.Body] {
				continue
			}
			done[p.Body] = true
			call := p.Body.V.(*ssa.Call)
			// value types: only shapes that always encode
			for _, t := range h.dynTypes(VV{p.Body.F, call.Call.Args[0]}) {
				bad := neverFailsToEncode(t, map[types.Type]bool{})
				r.Ob("infallible-encoding", "payload type "+typeName(t), bad == "", h.W.pos(call.Pos()), "values of "+bad+" may not be encodable as JSON")
			}
			opt := h.hasOption(VV{p.Body.F, call}, "AllowInvalidUTF8") || calleePath(&call.Call) == "encoding/json.Marshal"
			r.Ob("infallible-encoding", "invalid UTF-8 in "+callerChain(Node{F: p.Body.F, I: call}), opt, h.W.pos(call.Pos()),
				"the encoder rejects strings with invalid UTF-8 (source text can contain it, and messages quote source text): the frame is dropped. Pass jsontext.AllowInvalidUTF8(true)")
		}
	}
	r.Min("infallible-encoding", 2)
}

// hasOption: a variadic option built by the named constructor with true is passed to the call.
func (h *Headless) hasOption(call VV, name string) bool {
	c := call.V.(*ssa.Call)
	found := false
	var look func(o Origin, d int)
	look = func(o Origin, d int) {
		if cc, ok := o.V.(*ssa.Call); ok && d < 5 {
			cp := calleePath(&cc.Call)
			if strings.HasSuffix(cp, "."+name) && len(cc.Call.Args) == 1 {
				if b, ok := constBool(cc.Call.Args[0]); ok && b {
					found = true
				}
			}
			if strings.HasSuffix(cp, ".JoinOptions") {
				for _, a := range cc.Call.Args {
					for _, oo := range h.G.OriginsPath(VV{o.F, a}, "[]") {
						look(oo, d+1)
					}
					for _, s := range h.sliceElems(VV{o.F, a}) {
						look(s, d+1)
					}
				}
			}
		}
		if g, ok := o.V.(*ssa.Global); ok && d < 5 {
			// package level option value: look at its initialiser
			for _, s := range h.globalInit(g) {
				for _, oo := range h.G.Origins(s) {
					look(oo, d+1)
				}
				if cc, ok := s.V.(*ssa.Call); ok {
					look(Origin{F: s.F, V: cc}, d+1)
				}
			}
		}
	}
	for _, a := range c.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			for _, s := range h.sliceElems(VV{call.F, a}) {
				look(s, 0)
			}
		}
	}
	return found
}

// globalInit: values stored to a global by package initialisers.
func (h *Headless) globalInit(g *ssa.Global) []VV {
	var r []VV
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	fr := &Frame{Fn: init}
	fr.Thread = fr
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				r = append(r, VV{fr, unwrapIface(s.Val)})
			}
		}
	}
	return r
}

// sliceElems: the elements stored into the backing array of a slice.
func (h *Headless) sliceElems(v VV) []Origin {
	h.G.buildStores()
	var r []Origin
	for _, l := range h.G.sliceRoots(v, map[okey]bool{}) {
		for _, s := range h.G.stores[rootKey(h.G, l)] {
			if s.Path == l.Path+"[]" {
				r = append(r, h.G.Origins(s.Val)...)
			}
		}
	}
	return r
}

// dynTypes: the concrete types behind an interface argument.
func (h *Headless) dynTypes(v VV) []types.Type {
	seen := map[string]types.Type{}
	var walk func(v VV, d int)
	walk = func(v VV, d int) {
		if d > 12 || v.V == nil {
			return
		}
		switch x := v.V.(type) {
		case *ssa.MakeInterface:
			seen[x.X.Type().String()] = x.X.Type()
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(VV{v.F, e}, d+1)
			}
			return
		case *ssa.ChangeInterface:
			walk(VV{v.F, x.X}, d+1)
			return
		case *ssa.Parameter:
			for i, p := range v.F.Fn.Params {
				if p == x && i < len(v.F.Args) {
					walk(v.F.Args[i], d+1)
				}
			}
			return
		}
		for _, o := range h.G.Origins(v) {
			if o.Path == "" && o.V != nil && !types.IsInterface(o.V.Type()) {
				seen[o.V.Type().String()] = o.V.Type()
			}
		}
	}
	walk(v, 0)
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []types.Type
	for _, k := range ks {
		r = append(r, seen[k])
	}
	return r
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func neverFailsToEncode(t types.Type, seen map[types.Type]bool) string {
	t = types.Unalias(t)
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if strings.HasPrefix(n.Method(i).Name(), "MarshalJSON") || n.Method(i).Name() == "MarshalText" {
				return typeName(t) + " (custom encoder)"
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 {
			return ""
		}
	case *types.Pointer:
		return neverFailsToEncode(u.Elem(), seen)
	case *types.Slice:
		return neverFailsToEncode(u.Elem(), seen)
	case *types.Array:
		return neverFailsToEncode(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				if b := neverFailsToEncode(u.Field(i).Type(), seen); b != "" {
					return b
				}
			}
		}
		return ""
	}
	return typeName(t)
}

// jsonField finds a struct field by its JSON name.
func jsonField(st *types.Struct, name string) *types.Var {
	for i := 0; i < st.NumFields(); i++ {
		if jsonName(st, i) == name {
			return st.Field(i)
		}
	}
	return nil
}

func jsonName(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n, _, _ := strings.Cut(tag, ",")
	if n == "" {
		n = st.Field(i).Name()
	}
	if tag == "-" {
		return ""
	}
	return n
}

// jsonPath turns a JSON path ("message.id", "fixes[].text") into an origin path.
func jsonPath(t types.Type, jp string) (string, bool) {
	out := ""
	for jp != "" {
		for {
			if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
				out += "*"
				t = p.Elem()
				continue
			}
			break
		}
		if strings.HasPrefix(jp, "[]") {
			s, ok := t.Underlying().(*types.Slice)
			if !ok {
				return "", false
			}
			out += "[]"
			t = s.Elem()
			jp = strings.TrimPrefix(jp[2:], ".")
			continue
		}
		name := jp
		if i := strings.IndexAny(jp, ".["); i >= 0 {
			name = jp[:i]
		}
		jp = strings.TrimPrefix(jp[len(name):], ".")
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "", false
		}
		f := jsonField(st, name)
		if f == nil {
			return "", false
		}
		out += "." + f.Name()
		t = f.Type()
	}
	for {
		if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			out += "*"
			t = p.Elem()
			continue
		}
		break
	}
	return out, true
}

func (r *R) checkFields(h *Headless, si *stdoutInfo, con *diagConsumer) {
	type want struct {
		json string
		// accepted terminal shapes
		last []string // last path component of the diagnostic value
		call []string // or result of this call
		recv string   // ... whose receiver ends in this component
	}
	wants := []want{
		{json: "rule", last: []string{"RuleName", "Name"}},
		{json: "message.id", last: []string{"Id"}},
		{json: "message.description", last: []string{"Description"}},
		{json: "message.help", last: []string{"Help"}},
		{json: "file_path", last: []string{"FilePath"}, call: []string{pAst + ".SourceFile.FileName", tsgoPath + "/internal/tspath.ResolvePath"}},
		{json: "range.pos", call: []string{tsgoPath + "/internal/core.TextRange.Pos"}, recv: "Range"},
		{json: "range.end", call: []string{tsgoPath + "/internal/core.TextRange.End"}, recv: "Range"},
		{json: "fixes[].text", last: []string{"Text"}},
		{json: "fixes[].range.pos", call: []string{tsgoPath + "/internal/core.TextRange.Pos"}, recv: "Range"},
		{json: "fixes[].range.end", call: []string{tsgoPath + "/internal/core.TextRange.End"}, recv: "Range"},
		{json: "labeled_ranges[].label", last: []string{"Label"}},
		{json: "labeled_ranges[].range.pos", call: []string{tsgoPath + "/internal/core.TextRange.Pos"}, recv: "Range"},
		{json: "labeled_ranges[].range.end", call: []string{tsgoPath + "/internal/core.TextRange.End"}, recv: "Range"},
		{json: "suggestions[].message.id", last: []string{"Id"}},
		{json: "suggestions[].message.description", last: []string{"Description"}},
		{json: "suggestions[].message.help", last: []string{"Help"}},
		{json: "suggestions[].fixes[].text", last: []string{"Text"}},
		{json: "suggestions[].fixes[].range.pos", call: []string{tsgoPath + "/internal/core.TextRange.Pos"}, recv: "Range"},
		{json: "suggestions[].fixes[].range.end", call: []string{tsgoPath + "/internal/core.TextRange.End"}, recv: "Range"},
	}
	for _, n := range si.writes {
		if n.F.Thread != con.F.Thread {
			continue
		}
		for _, p := range si.ops[n].Pieces {
			if p.Kind != "body" {
				continue
			}
			call := p.Body.V.(*ssa.Call)
			arg := VV{p.Body.F, call.Call.Args[0]}
			ts := h.dynTypes(arg)
			if !r.Need(len(ts) == 1, "the type of the diagnostic frame body") {
				return
			}
			for _, w := range wants {
				path, ok := jsonPath(ts[0], w.json)
				if !ok {
					r.Bad("field-provenance", w.json, h.W.pos(call.Pos()), "the frame body has no field "+w.json)
					continue
				}
				os := h.G.OriginsPath(arg, path)
				good, bad := 0, ""
				for _, o := range os {
					if c, ok := o.V.(*ssa.Const); ok {
						_ = c
						continue // constants: zero value or literal message parts
					}
					if isZeroInit(o) {
						continue
					}
					if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
						cp := realPath(h.W, &c.Call)
						hit := false
						for _, x := range w.call {
							if cp == x {
								hit = true
								if w.recv != "" {
									for _, ro := range h.G.Origins(VV{o.F, c.Call.Args[0]}) {
										if lc := lastComp(ro); lc != w.recv && lc != "" && !rangeSource(ro) {
											hit = false
											bad = "range of " + ro.String()
										}
									}
								}
							}
						}
						if hit {
							good++
							continue
						}
						if len(w.call) > 0 {
							bad = o.String()
							continue
						}
						// computed text (messages built by a helper) counts for text fields
						if strings.HasSuffix(cp, "GetDiagnosticMessage") || strings.HasPrefix(cp, tsgoPath) || len(w.last) > 0 && !strings.HasPrefix(cp, modPath) {
							good++
							continue
						}
						good++
						continue
					}
					if b, ok := o.V.(*ssa.BinOp); ok && b != nil {
						continue // concatenated text
					}
					lc := lastComp(o)
					hit := false
					for _, x := range w.last {
						if lc == x {
							hit = true
						}
					}
					if _, isParam := o.V.(*ssa.Parameter); isParam && o.Path == "" && len(w.last) > 0 {
						hit = true // e.g. text handed to a helper
					}
					if hit {
						good++
					} else {
						bad = o.String()
					}
				}
				r.Ob("field-provenance", w.json, good > 0 && bad == "", h.W.pos(call.Pos()), fmt.Sprintf("frame field %s is filled from %s (sources: %s)", w.json, bad, originStrings(os)))
			}
		}
	}
	r.Min("field-provenance", 15)
}

func isZeroInit(o Origin) bool {
	if _, ok := o.V.(*ssa.Alloc); ok && strings.HasPrefix(o.Path, "*") {
		return true
	}
	if _, ok := o.V.(*ssa.MakeSlice); ok {
		return true
	}
	return false
}

func rangeSource(o Origin) bool { return o.Path == "" }

func lastComp(o Origin) string {
	p := strings.TrimRight(o.Path, "*[]{}")
	if i := strings.LastIndex(p, "."); i >= 0 {
		return strings.TrimRight(p[i+1:], "*[]{}")
	}
	return ""
}

// checkFlush: what the consumer buffered is flushed on every path to its end.
func (h *Headless) checkFlush(r *R, si *stdoutInfo, con *diagConsumer) {
	for _, n := range si.writes {
		if n.F.Thread != con.F.Thread {
			continue
		}
		id := h.writerID(si.ops[n].Writer)
		if !h.buffered(si.ops[n].Writer) {
			continue
		}
		rets := h.frameReturns(con.F.Thread)
		isFlush := func(m Node) bool {
			op := si.ops[m]
			return op != nil && op.Kind == "flush" && h.writerID(op.Writer) == id
		}
		bad, ok := h.mustPass(h.G.After(n), isFlush, func(m Node) bool { return rets[m] }, nil)
		pos := ""
		if !ok {
			pos = h.G.nodePos(bad)
		}
		r.Ob("flush", h.where(n), ok, h.G.nodePos(n), "the buffered writer is not flushed on a path to the end of the consumer at "+pos)
	}
}

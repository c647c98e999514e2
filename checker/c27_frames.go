package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pScanner = tsgoPath + "/internal/scanner"

func init() {
	register("C27", "A diagnostic in the output says exactly what was reported",
		"Value provenance in views of the supergraph: with the received item holding a rule diagnostic, and with it holding an internal one, each member of the encoded frame is resolved to the part of that very item it must be; lists are one-to-one conversions. The report functions handed to rules pass range, message and labels on unchanged, nodes are reported with the range from their first token to their end (a symbolic evaluation of range expressions), and the helpers that build fixes and suggestions are evaluated the same way. The frame's type is compared with the protocol.",
		checkC27)
}

// ---- alternatives -----------------------------------------------------------

// expand: the anchors a value can have (one per return, phi edge or assignment still possible).
func (h *Headless) expand(a Anchor, at Node, d int) []Anchor {
	if d > 25 {
		return []Anchor{a}
	}
	ptr := func(v VV, path string) []Anchor {
		if strings.HasPrefix(path, "*") {
			switch v.V.(type) {
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
				return h.expand(h.anchorLoad(v, path[1:], at, 0), at, d+1)
			}
		}
		return h.expand(h.anchorP(v, path, 0), at, d+1)
	}
	switch x := a.V.(type) {
	case *ssa.Call:
		key := siteKey{a.F, x, nil}
		if a.Kind != "call" || !h.G.inlined[key] {
			break
		}
		idx, path := 0, a.Path
		if strings.HasPrefix(path, "#") {
			fmt.Sscanf(path, "#%d", &idx)
			path = strings.TrimPrefix(path, fmt.Sprintf("#%d", idx))
		}
		var r []Anchor
		for _, k := range h.G.kids[key] {
			for _, b := range k.Fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) && h.G.alive(Node{F: k, I: ret}) {
					r = append(r, ptr(VV{k, ret.Results[idx]}, path)...)
				}
			}
		}
		return r
	case *ssa.Phi:
		if a.Kind != "val" || isAccumulator(x) {
			break
		}
		var r []Anchor
		for i, e := range x.Edges {
			if e != x && h.G.aliveEdge(a.F, x.Block(), i) {
				r = append(r, ptr(VV{a.F, e}, a.Path)...)
			}
		}
		return r
	case *ssa.Alloc:
		if a.Kind == "cell" {
			ss := h.cellStores(VV{a.F, x}, a.Path)
			if len(ss) > 1 {
				ss, _ = h.reachingOf(at, ss)
			}
			var r []Anchor
			for _, s := range ss {
				if !strings.HasPrefix(a.Path, s.Path) {
					return []Anchor{a}
				}
				r = append(r, ptr(s.Val, a.Path[len(s.Path):])...)
			}
			if len(r) > 0 {
				return r
			}
		}
		if a.Kind == "val" && strings.HasPrefix(a.Path, "*") {
			return ptr(VV{a.F, x}, a.Path)
		}
	case *ssa.FieldAddr:
		if a.Kind == "val" && strings.HasPrefix(a.Path, "*") {
			return ptr(VV{a.F, x}, a.Path)
		}
	}
	return []Anchor{a}
}

// isAccumulator: a list that a loop appends to.
func isAccumulator(x *ssa.Phi) bool {
	if _, ok := x.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, p := range x.Block().Preds {
		if x.Block().Dominates(p) {
			return true
		}
	}
	return false
}

func (h *Headless) one(a Anchor, at Node) Anchor {
	as := h.expand(a, at, 0)
	if len(as) == 0 {
		return a
	}
	for _, b := range as[1:] {
		if !h.sameAnchor(as[0], b) {
			return a
		}
	}
	return as[0]
}

// ---- ranges as expressions ----------------------------------------------------

type rangeEval struct {
	h  *Headless
	at Node
}

func (e *rangeEval) key(a Anchor) string {
	a = e.h.one(a, e.at)
	if s, ok := constStr(a.V); ok {
		return fmt.Sprintf("%q", s)
	}
	if n, ok := constInt(a.V); ok {
		return fmt.Sprint(n)
	}
	fr := 0
	if a.F != nil {
		fr = a.F.ID
	}
	name := "?"
	if a.V != nil {
		name = a.V.Name()
	}
	if a.Kind == "elem" {
		return fmt.Sprintf("%s[%s]@%d%s", e.key(e.h.anchor(VV{a.F, a.Coll})), name, fr, a.Path)
	}
	return fmt.Sprintf("%s@%d%s", name, fr, a.Path)
}

func (e *rangeEval) call(a Anchor) (string, []ssa.Value) {
	c, ok := a.V.(*ssa.Call)
	if !ok || a.Kind != "call" || a.Path != "" {
		return "", nil
	}
	return realPath(e.h.W, &c.Call), c.Call.Args
}

func (e *rangeEval) val(f *Frame, v ssa.Value) Anchor { return e.h.anchor(VV{f, v}) }

// num: an offset.
func (e *rangeEval) num(a Anchor) string {
	a = e.h.one(a, e.at)
	for {
		c, ok := a.V.(*ssa.Convert)
		if !ok {
			break
		}
		a = e.h.one(e.val(a.F, c.X), e.at)
	}
	p, args := e.call(a)
	switch p {
	case pCore + ".TextRange.Pos":
		x, _ := e.rng(e.val(a.F, args[0]))
		return x
	case pCore + ".TextRange.End":
		_, x := e.rng(e.val(a.F, args[0]))
		return x
	case pAst + ".Node.Pos":
		return "pos(" + e.key(e.val(a.F, args[0])) + ")"
	case pAst + ".Node.End":
		return "end(" + e.key(e.val(a.F, args[0])) + ")"
	case pScanner + ".SkipTrivia":
		t := e.h.one(e.val(a.F, args[0]), e.at)
		if q, ta := e.call(t); q == pAst+".SourceFile.Text" {
			return "token(" + e.key(e.val(t.F, ta[0])) + "," + e.num(e.val(a.F, args[1])) + ")"
		}
	case pScanner + ".GetTokenPosOfNode":
		if b, ok := constBool(args[2]); ok && !b {
			return "token(" + e.key(e.val(a.F, args[1])) + ",pos(" + e.key(e.val(a.F, args[0])) + "))"
		}
	}
	return e.key(a)
}

// rng: start and end of a range.
func (e *rangeEval) rng(a Anchor) (string, string) {
	a = e.h.one(a, e.at)
	p, args := e.call(a)
	switch p {
	case pCore + ".NewTextRange":
		return e.num(e.val(a.F, args[0])), e.num(e.val(a.F, args[1]))
	case pCore + ".TextRange.WithEnd":
		s, _ := e.rng(e.val(a.F, args[0]))
		return s, e.num(e.val(a.F, args[1]))
	case pCore + ".TextRange.WithPos":
		_, t := e.rng(e.val(a.F, args[0]))
		return e.num(e.val(a.F, args[1])), t
	case pScanner + ".GetRangeOfTokenAtPosition":
		f, n := e.key(e.val(a.F, args[0])), e.num(e.val(a.F, args[1]))
		return "token(" + f + "," + n + ")", "tokenend(" + f + "," + n + ")"
	}
	if b := strings.TrimSuffix(a.Path, "*.Loc"); b != a.Path {
		x := a
		x.Path = b
		return "pos(" + e.key(x) + ")", "end(" + e.key(x) + ")"
	}
	k := e.key(a)
	return "pos(" + k + ")", "end(" + k + ")"
}

// nodeText: the range of the node's text without what precedes its first token.
func (e *rangeEval) nodeText(file, node Anchor) (string, string) {
	n := e.key(node)
	return "token(" + e.key(file) + ",pos(" + n + "))", "end(" + n + ")"
}

// ---- frames ---------------------------------------------------------------------

type frameAn struct {
	r    *R
	h    *Headless // the view
	name string
	at   Node
	pos  string
	item Anchor // the diagnostic
	arg  VV
	t    types.Type
}

func checkC27(r *R) {
	r.Rule("protocol", "the frame has the members of the protocol, under their names and with their types")
	r.Rule("members", "each member of a frame is the corresponding part of the diagnostic received")
	r.Rule("lists", "labelled ranges, fixes and suggestions are carried over one by one, complete and in order")
	r.Rule("report", "what a rule reports is passed on as it is; a node is reported with the range of its text")
	r.Rule("helpers", "the helpers that build fixes and suggestions cover exactly the text they name")
	h := headless(r)
	if h == nil {
		return
	}
	si := h.stdoutOps()
	con := h.consumer(r, si)
	if !r.Need(con != nil, "the goroutine that receives diagnostics and writes their frames") {
		return
	}
	seen := map[*ssa.Call]bool{}
	var prefix string
	var chanT types.Type
	for _, n := range si.writes {
		if n.F.Thread != con.F.Thread {
			continue
		}
		for _, p := range si.ops[n].Pieces {
			if p.Kind != "body" {
				continue
			}
			call := p.Body.V.(*ssa.Call)
			if seen[call] {
				continue
			}
			seen[call] = true
			arg := VV{p.Body.F, call.Call.Args[0]}
			ts := h.dynTypes(arg)
			if !r.Need(len(ts) == 1, "the type of the diagnostic frame body") {
				return
			}
			protocol(r, ts[0], frameSpec, "", h.W.pos(call.Pos()))
			for _, kind := range []string{"rule", "internal"} {
				px, t := frameMembers(r, h, con, arg, ts[0], Node{F: p.Body.F, I: call}, kind)
				if kind == "rule" {
					prefix, chanT = px, t
				} else if t != nil {
					reportInternal(r, h, con, px)
				}
			}
		}
	}
	r.Min("protocol", 20)
	r.Min("members", 12)
	r.Min("lists", 4)
	reportFns(r, h, con, prefix, chanT)
	r.Min("report", 16)
	h.inOrder(r, "lists", si, func(t types.Type) bool {
		return isNamed(t, pRule, "RuleFix") || isNamed(t, pRule, "RuleSuggestion") || isNamed(t, pRule, "RuleLabeledRange")
	})
	fixHelpers(r)
	r.Min("helpers", 8)
}

type memberSpec struct {
	name     string
	kind     string // int, string, object, list
	optional bool
	of       []memberSpec
}

var rangeSpec = []memberSpec{{name: "pos", kind: "int"}, {name: "end", kind: "int"}}
var messageSpec = []memberSpec{{name: "id", kind: "string"}, {name: "description", kind: "string"}, {name: "help", kind: "string", optional: true}}
var fixSpec = []memberSpec{{name: "text", kind: "string"}, {name: "range", kind: "object", of: rangeSpec}}
var frameSpec = []memberSpec{
	{name: "kind", kind: "int"},
	{name: "range", kind: "object", of: rangeSpec, optional: true},
	{name: "message", kind: "object", of: messageSpec},
	{name: "file_path", kind: "string"},
	{name: "labeled_ranges", kind: "list", optional: true, of: []memberSpec{{name: "label", kind: "string"}, {name: "range", kind: "object", of: rangeSpec}}},
	{name: "rule", kind: "string", optional: true},
	{name: "fixes", kind: "list", optional: true, of: fixSpec},
	{name: "suggestions", kind: "list", optional: true, of: []memberSpec{{name: "message", kind: "object", of: messageSpec}, {name: "fixes", kind: "list", of: fixSpec}}},
}

// protocol compares the type of a frame with the members it must have.
func protocol(r *R, t types.Type, spec []memberSpec, at, pos string) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !r.Ob("protocol", "object "+at, ok && !hasMarshaler(t), pos, "not encoded as an object of its members") {
		return
	}
	for _, m := range spec {
		con := at + m.name
		f := jsonField(st, m.name)
		if f == nil {
			r.Bad("protocol", con, pos, "the frame has no such member")
			continue
		}
		tag := ""
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				tag = reflect.StructTag(st.Tag(i)).Get("json")
			}
		}
		opts := strings.Split(tag, ",")[1:]
		why := ""
		for _, o := range opts {
			switch {
			case o == "omitempty" || o == "omitzero":
				if !m.optional {
					why = "the member is left out when it is empty"
				}
				if m.name == "range" {
					if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
						why = "the member can be left out although there is a range"
					}
				}
			case o == "":
			default:
				why = "encoded with option " + o
			}
		}
		if hasMarshaler(f.Type()) {
			why = "encoded by a method of its own"
		}
		ft := deref(f.Type())
		switch m.kind {
		case "int":
			b, ok := ft.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				why = "not a number"
			} else if m.name != "kind" && (b.Kind() == types.Int8 || b.Kind() == types.Uint8 || b.Kind() == types.Int16 || b.Kind() == types.Uint16) {
				why = "too small for an offset"
			}
		case "string":
			b, ok := ft.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsString == 0 {
				why = "not a text"
			}
		case "list":
			s, ok := ft.Underlying().(*types.Slice)
			if !ok {
				why = "not a list"
			} else {
				protocol(r, s.Elem(), m.of, con+"[].", pos)
			}
		case "object":
			protocol(r, ft, m.of, con+".", pos)
		}
		r.Ob("protocol", con, why == "", pos, why)
	}
}

func hasMarshaler(t types.Type) bool {
	for _, x := range []types.Type{t, types.NewPointer(deref(t))} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalJSON", "MarshalJSONTo", "MarshalText", "AppendText":
				return true
			}
		}
	}
	return false
}

// splitDiag: the part of the path up to the diagnostic.
func splitDiag(t types.Type, path string, is func(types.Type) bool) (prefix, rest string, ok bool) {
	done := ""
	for {
		if n := types.Unalias(t); is(n) {
			if _, isP := n.(*types.Pointer); !isP {
				return done, path, true
			}
		}
		switch {
		case path == "":
			return "", "", false
		case strings.HasPrefix(path, "*"):
			p, isP := t.Underlying().(*types.Pointer)
			if !isP {
				return "", "", false
			}
			t, path, done = p.Elem(), path[1:], done+"*"
		case strings.HasPrefix(path, "."):
			name := path[1:]
			if i := strings.IndexAny(name, ".*[#"); i >= 0 {
				name = name[:i]
			}
			st, isS := t.Underlying().(*types.Struct)
			if !isS {
				return "", "", false
			}
			hit := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					t, hit = st.Field(i).Type(), true
				}
			}
			if !hit {
				return "", "", false
			}
			path, done = path[1+len(name):], done+"."+name
		default:
			return "", "", false
		}
	}
}

func isRuleDiagT(t types.Type) bool { return isNamed(t, pRule, "RuleDiagnostic") }

func frameMembers(r *R, g *Headless, con *diagConsumer, arg VV, t types.Type, at Node, kind string) (string, types.Type) {
	pos := g.W.pos(at.I.(*ssa.Call).Pos())
	recv := Anchor{Kind: "recv", F: con.F, V: con.It.Source}
	if u, ok := con.It.Source.(*ssa.Extract); ok {
		recv.V = u.Tuple
	}
	elem := recv.V.(*ssa.UnOp).X.Type().Underlying().(*types.Chan).Elem()
	// the view: the item holds this kind of diagnostic, ranges are valid, lists are not empty
	cut := func(from Node, e Edge) bool {
		x, ok := from.I.(*ssa.If)
		if !ok || from.F.Thread != con.F.Thread {
			return false
		}
		c, val := x.Cond, e.Branch == 1
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, val = u.X, !val
		}
		if call, ok := c.(*ssa.Call); ok && realPath(g.W, &call.Call) == pCore+".TextRange.IsValid" {
			return !val
		}
		if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			v := b.X
			if isNilConst(b.X) {
				v = b.Y
			}
			if isNilConst(b.X) || isNilConst(b.Y) {
				a := g.anchor(VV{from.F, v})
				if a.Kind == "recv" && a.V == recv.V {
					isNil := (b.Op == token.EQL) == val
					switch {
					case isRuleDiagT(deref(v.Type())):
						return isNil == (kind == "rule")
					case isInternalT(deref(v.Type())):
						return isNil == (kind == "internal")
					}
				}
			}
		}
		em, ok := lenTest(from.F, c, func(v VV) bool {
			s, ok := v.V.Type().Underlying().(*types.Slice)
			n := (*types.Named)(nil)
			if ok {
				n = namedOf(s.Elem())
			}
			return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pRule
		})
		return ok && val == em
	}
	h := g.under(cut)
	fa := &frameAn{r: r, h: h, name: kind, at: at, pos: pos, arg: arg, t: t}
	if !h.set[at] {
		r.Bad("members", kind+" diagnostics", pos, "never written")
		return "", nil
	}
	fa.fresh(con, recv)
	// which part of the item is the diagnostic
	is := isRuleDiagT
	if kind == "internal" {
		is = isInternalT
	}
	descr, ok := jsonPath(t, "message.description")
	if !ok {
		return "", nil
	}
	a := h.one(h.anchorP(arg, descr, 0), at)
	prefix, rest, ok := splitDiag(elem, a.Path, is)
	if !r.Ob("members", kind+": message.description", a.Kind == "recv" && a.V == recv.V && ok && rest == map[string]string{"rule": ".Message.Description", "internal": ".Description"}[kind], pos, "not the description of the diagnostic received: "+a.String()) {
		return "", nil
	}
	fa.item = recv
	fa.item.Path = prefix
	txt := func(jp, want string) {
		p, ok := jsonPath(t, jp)
		if !ok {
			return
		}
		fa.same(jp, h.anchorP(arg, p, 0), fa.item, want)
	}
	ev := &rangeEval{h, at}
	rng := func(base Anchor, at string) (string, string) {
		base.Path += at
		return ev.rng(base)
	}
	s0, s1 := rng(fa.item, ".Range")
	fa.num("range.pos", s0)
	fa.num("range.end", s1)
	k, _ := jsonPath(t, "kind")
	ka := h.one(h.anchorP(arg, k, 0), at)
	kn, isC := constInt(ka.V)
	if kind == "internal" {
		r.Ob("members", kind+": kind", isC && kn == 1, pos, "an internal diagnostic is not marked as one")
		txt("message.id", ".Id")
		txt("message.help", ".Help")
		fp, _ := jsonPath(t, "file_path")
		fa.same("file_path", h.anchorP(arg, strings.TrimSuffix(fp, "*"), 0), fa.item, ".FilePath")
		for _, jp := range []string{"rule", "fixes", "suggestions", "labeled_ranges"} {
			p, ok := jsonPath(t, jp)
			if !ok {
				continue
			}
			bad := ""
			for _, x := range h.expand(h.anchorP(arg, strings.TrimSuffix(p, "*"), 0), at, 0) {
				if !isNilConst(x.V) && !(x.Kind == "cell") {
					bad = x.String()
				}
			}
			r.Ob("members", kind+": "+jp, bad == "", pos, "set for an internal diagnostic: "+bad)
		}
		return prefix, elem
	}
	// kind 0: the constant, or never set
	zero := isC && kn == 0 || ka.Kind == "cell"
	r.Ob("members", kind+": kind", zero, pos, "a diagnostic of a rule is not marked as one")
	txt("message.id", ".Message.Id")
	txt("message.help", ".Message.Help")
	rp, _ := jsonPath(t, "rule")
	fa.sameAny("rule", h.anchorP(arg, rp, 0), fa.item, ".RuleName")
	fp, _ := jsonPath(t, "file_path")
	for _, x := range h.expand(h.anchorP(arg, fp, 0), at, 0) {
		v, _, ok := h.method(x, pAst+".SourceFile.FileName")
		ok = ok && h.sameAnchor(h.one(h.anchor(v), at), fa.plus(".SourceFile"))
		r.Ob("members", kind+": file_path", ok, pos, "not the name of the file the diagnostic is about: "+x.String())
	}
	rest2 := func(jp string) string { p, _ := jsonPath(t, jp); return p }
	// lists
	fa.list("labeled_ranges", h.anchorP(arg, rest2("labeled_ranges"), 0), fa.plus(".LabeledRanges"), false, fa.labels)
	fa.list("fixes", h.anchorP(arg, rest2("fixes"), 0), fa.plus(".FixesPtr*"), true, fa.fix)
	fa.list("suggestions", h.anchorP(arg, rest2("suggestions"), 0), fa.plus(".Suggestions*"), true, fa.suggestion)
	return prefix, elem
}

// fresh: nothing of the frame of an earlier diagnostic is left in this one.
func (fa *frameAn) fresh(con *diagConsumer, recv Anchor) {
	h := fa.h
	h.G.buildStores()
	for _, n := range h.Nodes {
		al, ok := n.I.(*ssa.Alloc)
		if !ok || n.F.Thread != con.F.Thread || !types.Identical(deref(al.Type()), deref(fa.t)) {
			continue
		}
		uses := []Node{fa.at}
		for _, u := range *al.Referrers() {
			if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL && h.set[Node{F: n.F, I: l}] {
				uses = append(uses, Node{F: n.F, I: l})
			}
		}
		for _, jp := range []string{"kind", "range", "message.id", "message.description", "message.help", "file_path", "labeled_ranges", "rule", "fixes", "suggestions"} {
			p, ok := jsonPath(fa.t, jp)
			if !ok {
				continue
			}
			p = strings.TrimSuffix(p, "*")
			set := map[Node]bool{n: true}
			for _, s := range h.cellStores(VV{n.F, al}, p) {
				if strings.HasPrefix(p, s.Path) {
					set[s.Node] = true
				}
			}
			stale := false
			for _, u := range uses {
				h.back(u, func(x Node) bool {
					if v, ok := x.I.(ssa.Value); ok && v == recv.V {
						stale = true
						return true
					}
					return set[x]
				}, nil)
			}
			fa.r.Ob("members", fa.name+": "+jp+" set anew", !stale, fa.pos, "can still hold what was set for an earlier diagnostic")
		}
	}
}

func (fa *frameAn) plus(p string) Anchor {
	a := fa.item
	a.Path += p
	return a
}

func (fa *frameAn) same(con string, a, base Anchor, want string) {
	base.Path += want
	as := fa.h.expand(a, fa.at, 0)
	ok := len(as) > 0
	for _, x := range as {
		ok = ok && fa.h.sameAnchor(x, base)
	}
	fa.r.Ob("members", fa.name+": "+con, ok, fa.pos, "not that of the diagnostic: "+anchorsString(as))
}

// sameAny: as same; a pointer to the part counts.
func (fa *frameAn) sameAny(con string, a, base Anchor, want string) { fa.same(con, a, base, want) }

func anchorsString(as []Anchor) string {
	var s []string
	for _, a := range as {
		s = append(s, a.String())
	}
	return strings.Join(s, " | ")
}

func (fa *frameAn) num(jp, want string) {
	p, ok := jsonPath(fa.t, jp)
	if !ok {
		return
	}
	fa.numAt(jp, fa.h.anchorP(fa.arg, p, 0), want)
}

func (fa *frameAn) numAt(con string, a Anchor, want string) {
	ev := &rangeEval{fa.h, fa.at}
	as := fa.h.expand(a, fa.at, 0)
	ok, got := len(as) > 0, ""
	for _, x := range as {
		got = ev.num(x)
		ok = ok && got == want
	}
	fa.r.Ob("members", fa.name+": "+con, ok, fa.pos, "not that of the diagnostic: "+got+", expected "+want)
}

// list: the value is a one-to-one conversion of the diagnostic's list (or, if allowed, absent).
func (fa *frameAn) list(con string, a, src Anchor, absent bool, elem func(con string, c *converted, e Anchor)) {
	h := fa.h
	n := 0
	for _, x := range h.expand(a, fa.at, 0) {
		if isNilConst(x.V) || x.Kind == "cell" {
			if !absent {
				fa.r.Bad("lists", fa.name+": "+con, fa.pos, "left out although the diagnostic has some")
			}
			continue
		}
		conv, lits, why := h.lists(VV{x.F, x.V}, nil)
		if x.Path != "" {
			why = "the list comes from " + x.String()
		}
		if why == "" && (len(conv) != 1 || !noElems(lits)) {
			why = "the list is not a conversion of the diagnostic's"
		}
		if why == "" {
			c := conv[0]
			hit := false
			for _, y := range h.expand(h.anchor(VV{c.F, c.It.Coll}), fa.at, 0) {
				if h.sameAnchor(y, src) {
					hit = true
					continue
				}
				if isNilConst(y.V) {
					continue
				}
				if s, ok := y.V.(*ssa.Slice); ok {
					if al, ok := s.X.(*ssa.Alloc); ok {
						if es, ok := literalElems(y.F, al); ok && len(es) == 0 {
							continue
						}
					}
				}
				why = "the list is that of something else: " + y.String()
			}
			if !hit && why == "" {
				why = "the list is always empty"
			}
			if why == "" {
				n++
				elem(con, c, Anchor{Kind: "elem", F: c.F, V: c.It.Index, Coll: c.It.Coll})
			}
		}
		fa.r.Ob("lists", fa.name+": "+con, why == "", fa.pos, why)
	}
	fa.r.Ob("lists", fa.name+": "+con+" set", n > 0, fa.pos, "never filled")
}

func (fa *frameAn) elemType(c *converted) types.Type {
	for _, s := range c.Stores {
		if s.Path == "" {
			return s.Val.V.Type()
		}
	}
	return nil
}

// part: member jp of the elements made in a conversion is path of the source element.
func (fa *frameAn) part(con string, c *converted, jp string, e Anchor, want string) {
	p, as := fa.parts(c, jp)
	if p == "" {
		fa.r.Bad("members", fa.name+": "+con+"[]."+jp, fa.pos, "the elements are not built as a whole")
		return
	}
	e.Path += want
	ok := len(as) > 0
	for _, x := range as {
		ok = ok && fa.h.sameAnchor(x, e)
	}
	fa.r.Ob("members", fa.name+": "+con+"[]."+jp, ok, fa.pos, "not that of the diagnostic: "+anchorsString(as))
}

func (fa *frameAn) parts(c *converted, jp string) (string, []Anchor) {
	t := fa.elemType(c)
	p := ""
	if t != nil {
		p, _ = jsonPath(t, jp)
	} else {
		// filled member by member
		for _, s := range c.Stores {
			if ia, ok := s.Node.I.(*ssa.Store); ok {
				for a := ia.Addr; ; {
					if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
						continue
					}
					if x, ok := a.(*ssa.IndexAddr); ok {
						p, _ = jsonPath(deref(x.Type()), jp)
					}
					break
				}
			}
		}
	}
	if p == "" {
		return "", nil
	}
	as, _ := c.part(fa.h, p)
	var r []Anchor
	for _, a := range as {
		r = append(r, fa.h.expand(a, fa.at, 0)...)
	}
	return p, r
}

func (fa *frameAn) partRange(con string, c *converted, e Anchor, want string) {
	e.Path += want
	ev := &rangeEval{fa.h, fa.at}
	s, t := ev.rng(e)
	for i, jp := range []string{"range.pos", "range.end"} {
		_, as := fa.parts(c, jp)
		ok, got := len(as) > 0, ""
		for _, x := range as {
			got = ev.num(x)
			ok = ok && got == []string{s, t}[i]
		}
		fa.r.Ob("members", fa.name+": "+con+"[]."+jp, ok, fa.pos, "not that of the diagnostic: "+got)
	}
}

func (fa *frameAn) labels(con string, c *converted, e Anchor) {
	fa.part(con, c, "label", e, ".Label")
	fa.partRange(con, c, e, ".Range")
}

func (fa *frameAn) fix(con string, c *converted, e Anchor) {
	fa.part(con, c, "text", e, ".Text")
	fa.partRange(con, c, e, ".Range")
}

func (fa *frameAn) suggestion(con string, c *converted, e Anchor) {
	fa.part(con, c, "message.id", e, ".Message.Id")
	fa.part(con, c, "message.description", e, ".Message.Description")
	fa.part(con, c, "message.help", e, ".Message.Help")
	_, as := fa.parts(c, "fixes")
	src := e
	src.Path += ".FixesArr"
	for _, a := range as {
		fa.list(con+"[].fixes", a, src, false, fa.fix)
	}
	fa.r.Ob("lists", fa.name+": "+con+"[].fixes", len(as) > 0, fa.pos, "not set")
}

// ---- report functions -------------------------------------------------------------

// sentPart: the parts of the diagnostic that an item handed to the writer holds under prefix.
func (h *Headless) sentPart(n Node, prefix string) func(p string) Anchor {
	s := n.I.(*ssa.Send)
	// the item's pointer leads to a variable
	if strings.HasSuffix(prefix, "*") {
		b := strings.TrimSuffix(prefix, "*")
		return func(p string) Anchor {
			pa := h.one(h.anchorP(VV{n.F, s.X}, b, 0), n)
			if al, ok := pa.V.(*ssa.Alloc); ok && pa.Path == "" {
				return h.one(h.anchorLoad(VV{pa.F, al}, p, n, 0), n)
			}
			pa.Path += "*" + p
			return pa
		}
	}
	return func(p string) Anchor { return h.one(h.anchorP(VV{n.F, s.X}, prefix+p, 0), n) }
}

// reportInternal: what the program loader reports is handed to the writer as it is.
func reportInternal(r *R, h *Headless, con *diagConsumer, prefix string) {
	sends, _ := h.sends(con.Ch)
	done := map[string]bool{}
	for _, n := range sends {
		var from *Frame
		var par *ssa.Parameter
		for f := n.F; f != nil; f = f.Parent {
			for _, p := range f.Fn.Params {
				if _, isP := types.Unalias(p.Type()).(*types.Pointer); !isP && isInternalT(p.Type()) {
					from, par = f, p
				}
			}
		}
		if from == nil {
			continue
		}
		get := h.sentPart(n, prefix)
		for _, m := range []string{".Range", ".Id", ".Description", ".Help", ".FilePath"} {
			a := get(m)
			ok := h.sameAnchor(a, h.one(h.anchorP(VV{from, par}, m, 0), n))
			con := fnName(from.Fn) + ": " + strings.ToLower(m[1:])
			if ok && done[con] {
				continue
			}
			done[con] = true
			r.Ob("report", con, ok, h.W.pos(from.Fn.Pos()), "the "+strings.ToLower(m[1:])+" is not the one reported: "+a.String())
		}
	}
}

func reportFns(r *R, h *Headless, con *diagConsumer, prefix string, elem types.Type) {
	if elem == nil {
		return
	}
	sends, _ := h.sends(con.Ch)
	byField := h.ruleContextFuncs(r)
	done := map[string]bool{}
	for _, name := range sortedKeys(byField) {
		for _, f := range byField[name] {
			if f == nil {
				r.Bad("report", name, "-", "the function handed to rules cannot be resolved")
				continue
			}
			pos := h.W.pos(f.Fn.Pos())
			param := func(is func(types.Type) bool) *Anchor {
				for _, p := range f.Fn.Params {
					if is(p.Type()) {
						return &Anchor{Kind: "param", F: f, V: p}
					}
				}
				return nil
			}
			diag := param(isRuleDiagT)
			rng := param(func(t types.Type) bool { return isNamed(t, pCore, "TextRange") })
			node := param(func(t types.Type) bool { return isNamed(deref(t), pAst, "Node") })
			msg := param(func(t types.Type) bool { return isNamed(t, pRule, "RuleMessage") })
			for _, n := range sends {
				if !inFrameTree(n.F, f) {
					continue
				}
				done[name] = true
				get := h.sentPart(n, prefix)
				ev := &rangeEval{h, n}
				same := func(what, p string, want Anchor, wp string) {
					want.Path += wp
					a := get(p)
					r.Ob("report", name+": "+what, h.sameAnchor(a, want), pos, "the "+what+" is not the one reported: "+a.String())
				}
				whole := func(what, p string, want Anchor, parts ...string) {
					for _, q := range parts {
						same(what+strings.ToLower(q), p+q, want, q)
					}
				}
				switch {
				case diag != nil:
					d := *diag
					d.Path = ".Range"
					same("range", ".Range", d, "")
					d.Path = ".Message"
					whole("message", ".Message", d, ".Id", ".Description", ".Help")
					d.Path = ".LabeledRanges"
					same("labelled ranges", ".LabeledRanges", d, "")
				case msg != nil && (rng != nil || node != nil):
					whole("message", ".Message", *msg, ".Id", ".Description", ".Help")
					a, b := ev.rng(get(".Range"))
					var x, y string
					if rng != nil {
						x, y = ev.rng(*rng)
					} else {
						x, y = ev.nodeText(get(".SourceFile"), *node)
					}
					r.Ob("report", name+": range", a == x && b == y, pos, fmt.Sprintf("the range is %s to %s, not %s to %s", a, b, x, y))
				default:
					r.Bad("report", name, pos, "its parameters are not understood")
				}
			}
			if !done[name] {
				r.Bad("report", name, pos, "nothing is sent")
			}
		}
	}
}

// ---- helpers ------------------------------------------------------------------------

func fixHelpers(r *R) {
	w := r.W
	isFix := func(t types.Type) bool { return isNamed(t, pRule, "RuleFix") }
	for _, fn := range w.allFns {
		if fnPkgPath(fn) != pRule || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Signature.Recv() != nil {
			continue
		}
		name := fn.Name()
		if name == "ReportNodeWithFixesOrSuggestions" {
			suggestOr(r, fn)
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || !isFix(res.At(0).Type()) {
			continue
		}
		h := newHeadless(w, fn)
		var file, node, text, rng *Anchor
		for _, p := range fn.Params {
			a := &Anchor{Kind: "param", F: h.G.Root, V: p}
			switch t := p.Type(); {
			case isNamed(deref(t), pAst, "SourceFile"):
				file = a
			case isNamed(deref(t), pAst, "Node"):
				node = a
			case isNamed(t, pCore, "TextRange"):
				rng = a
			case types.Identical(t, types.Typ[types.String]):
				text = a
			}
		}
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			at := Node{F: h.G.Root, I: ret}
			ev := &rangeEval{h, at}
			v := VV{h.G.Root, ret.Results[0]}
			s, e := ev.rng(h.anchorP(v, ".Range", 0))
			ta := h.one(h.anchorP(v, ".Text", 0), at)
			pos := w.pos(fn.Pos())
			var ws, we string
			switch {
			case strings.HasSuffix(name, "InsertBefore") && node != nil && file != nil:
				ws, _ = ev.nodeText(*file, *node)
				we = ws
			case strings.HasSuffix(name, "InsertAfter") && node != nil:
				we = "end(" + ev.key(*node) + ")"
				ws = we
			case node != nil && file != nil && (strings.HasSuffix(name, "Replace") || strings.HasSuffix(name, "Remove")):
				ws, we = ev.nodeText(*file, *node)
			case rng != nil && (strings.HasSuffix(name, "ReplaceRange") || strings.HasSuffix(name, "RemoveRange")):
				ws, we = ev.rng(*rng)
			default:
				continue
			}
			r.Ob("helpers", name+": range", s == ws && e == we, pos, fmt.Sprintf("covers %s to %s instead of %s to %s", s, e, ws, we))
			if text != nil {
				r.Ob("helpers", name+": text", h.sameAnchor(ta, *text), pos, "the text is not the one given")
			} else {
				c, ok := constStr(ta.V)
				r.Ob("helpers", name+": text", ok && c == "", pos, "something is inserted where text is removed")
			}
		}
	}
}

// suggestOr: fixes are handed on as a fix, or as one suggestion with the message for it.
func suggestOr(r *R, fn *ssa.Function) {
	h := newHeadless(r.W, fn)
	pos := r.W.pos(fn.Pos())
	var fix, node *Anchor
	var msgs []*Anchor
	var fixes *Anchor
	for _, p := range fn.Params {
		a := &Anchor{Kind: "param", F: h.G.Root, V: p}
		switch t := p.Type(); {
		case isBoolT(t):
			fix = a
		case isNamed(deref(t), pAst, "Node"):
			node = a
		case isNamed(t, pRule, "RuleMessage"):
			msgs = append(msgs, a)
		default:
			if s, ok := t.Underlying().(*types.Slice); ok && isNamed(s.Elem(), pRule, "RuleFix") {
				fixes = a
			}
		}
	}
	if !r.Need(fix != nil && node != nil && len(msgs) == 2 && fixes != nil, "the parameters of "+fn.Name()) {
		return
	}
	for _, want := range []bool{true, false} {
		want := want
		v := h.under(func(from Node, e Edge) bool {
			x, ok := from.I.(*ssa.If)
			if !ok {
				return false
			}
			c, val := x.Cond, e.Branch == 1
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, val = u.X, !val
			}
			return h.sameAnchor(h.anchor(VV{from.F, c}), *fix) && val != want
		})
		con := fn.Name() + map[bool]string{true: ": fix", false: ": suggestion"}[want]
		n := 0
		for _, nd := range v.Nodes {
			c := callOf(nd)
			if c == nil || c.StaticCallee() != nil || c.IsInvoke() || nd.F != v.G.Root {
				continue
			}
			n++
			m := v.anchor(VV{nd.F, c.Value})
			ok := strings.HasSuffix(m.Path, map[bool]string{true: ".ReportNodeWithFixes", false: ".ReportNodeWithSuggestions"}[want])
			ok = ok && len(c.Args) == 3 && v.sameAnchor(v.anchor(VV{nd.F, c.Args[0]}), *node) && v.sameAnchor(v.anchor(VV{nd.F, c.Args[1]}), *msgs[0])
			r.Ob("helpers", con, ok, pos, "not reported as it is")
			if !ok {
				continue
			}
			good := false
			fs, complete := v.G.fnTargetsPath(VV{nd.F, c.Args[2]}, "")
			for _, k := range v.G.Frames {
				if len(fs) != 1 || !complete || k.Fn != fs[0].fn {
					continue
				}
				for _, b := range k.Fn.Blocks {
					ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !isRet {
						continue
					}
					rv := VV{k, ret.Results[0]}
					if want {
						good = v.sameAnchor(v.one(v.anchor(rv), Node{F: k, I: ret}), *fixes)
						continue
					}
					sl, isS := ret.Results[0].(*ssa.Slice)
					if !isS {
						continue
					}
					al, isA := sl.X.(*ssa.Alloc)
					if !isA {
						continue
					}
					if at, ok := deref(al.Type()).Underlying().(*types.Array); !ok || at.Len() != 1 {
						continue
					}
					good = true
					for p, x := range map[string]*Anchor{".Message": msgs[1], ".FixesArr": fixes} {
						var as []Anchor
						if es, ok := literalElems(k, al); ok && len(es) == 1 {
							as = v.expand(v.anchorP(es[0], p, 0), Node{F: k, I: ret}, 0)
						} else {
							for _, o := range v.G.OriginsPath(rv, "[]"+p) {
								as = append(as, Anchor{Kind: "param", F: o.F, V: o.V, Path: o.Path})
							}
						}
						for _, a := range as {
							good = good && a.V == x.V && a.Path == ""
						}
						good = good && len(as) > 0
					}
				}
			}
			r.Ob("helpers", con+": content", good, pos, "the fixes (or the message of the suggestion) are not the ones given")
		}
		r.Ob("helpers", con+": reported", n == 1, pos, fmt.Sprintf("%d reports", n))
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// rearranged: places that change lists of a diagnostic (of elements elem accepts) in place.
func (h *Headless) rearranged(si *stdoutInfo, elem func(types.Type) bool) map[Node]string {
	parts := map[*types.Named]bool{}
	var collect func(t types.Type)
	collect = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			collect(u.Elem())
		case *types.Slice:
			collect(u.Elem())
		case *types.Struct:
			n := namedOf(t)
			if n == nil || parts[n] {
				return
			}
			parts[n] = true
			for i := 0; i < u.NumFields(); i++ {
				collect(u.Field(i).Type())
			}
		}
	}
	for _, n := range si.writes {
		for _, p := range si.ops[n].Pieces {
			if p.Kind == "body" {
				for _, t := range h.dynTypes(VV{p.Body.F, p.Body.V.(*ssa.Call).Call.Args[0]}) {
					collect(t)
					delete(parts, namedOf(deref(t))) // frames may be put in order
				}
			}
		}
	}
	list := func(v ssa.Value) bool {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		s, ok := v.Type().Underlying().(*types.Slice)
		return ok && elem(s.Elem()) || ok && namedOf(s.Elem()) != nil && parts[namedOf(s.Elem())]
	}
	bad := map[Node]string{}
	for _, n := range h.Nodes {
		if st, ok := n.I.(*ssa.Store); ok {
			a := st.Addr
			for {
				f, ok := a.(*ssa.FieldAddr)
				if !ok {
					break
				}
				a = f.X
			}
			// elements of the reported lists themselves
			if x, ok := a.(*ssa.IndexAddr); ok {
				if s, ok := x.X.Type().Underlying().(*types.Slice); ok && elem(s.Elem()) {
					for _, o := range h.G.Origins(VV{n.F, x.X}) {
						switch o.V.(type) {
						case *ssa.Alloc, *ssa.MakeSlice:
						default:
							bad[n] = "an element is overwritten"
						}
					}
				}
			}
			continue
		}
		c := callOf(n)
		if c == nil || len(c.Args) == 0 || !list(c.Args[0]) {
			continue
		}
		cp := calleePath(c)
		for _, q := range []string{"slices.Sort", "slices.Reverse", "slices.Delete", "slices.Compact", "slices.Replace", "sort.", "builtin.clear"} {
			if strings.HasPrefix(cp, q) && cp != "slices.Sorted" && !strings.HasPrefix(cp, "slices.SortedF") && !strings.HasPrefix(cp, "sort.Search") {
				bad[n] = cp
			}
		}
	}
	return bad
}

// inOrder reports the places that rearrange lists of a diagnostic.
func (h *Headless) inOrder(r *R, rule string, si *stdoutInfo, elem func(types.Type) bool) {
	bad := h.rearranged(si, elem)
	r.Ob(rule, "lists stay as reported", len(bad) == 0, "-", "lists of a diagnostic are changed in place")
	for n, why := range bad {
		r.Bad(rule, "in place: "+h.where(n), h.G.nodePos(n), "a list of a diagnostic is changed in place: "+why)
	}
}

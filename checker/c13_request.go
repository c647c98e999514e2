package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "A request is read in the format its version says",
		"Over the supergraph of headless mode, for each representative version (every constant the version is compared with, its neighbours, 0 and 2): path-sensitive simulation from the reading of stdin with the version fixed and each decoding succeeding or failing in turn, deciding where the run ends; under version 2 the request used is the decoded document itself and nothing writes to it, under 0 it is the conversion of the old format, element by element, for the complete lists. The members and their types are compared with the wire format.",
		checkC13)
}

type reqAn struct {
	r       *R
	h       *Headless
	decodes []Node
	targets map[Node]Origin // what a decoding fills
	t2      *types.Named
	t1      *types.Named
	errW    map[Node]bool
	lint    map[Node]bool
	reads   map[Node]bool // uses of the request
	lists1  string        // Go field of the old format's list
}

// errorFrames: the nodes that write an error frame.
func (h *Headless) errorFrames(si *stdoutInfo) map[Node]bool {
	m := map[Node]bool{}
	for _, n := range si.writes {
		for _, p := range si.ops[n].Pieces {
			if p.Kind != "body" {
				continue
			}
			call := p.Body.V.(*ssa.Call)
			for _, t := range h.dynTypes(VV{p.Body.F, call.Call.Args[0]}) {
				if st, ok := t.Underlying().(*types.Struct); ok && jsonField(st, "error") != nil {
					m[n] = true
				}
			}
		}
	}
	return m
}

func isDecode(cp string) bool {
	return strings.HasSuffix(cp, "/json.Unmarshal") || strings.HasSuffix(cp, "/json.UnmarshalRead") || strings.HasSuffix(cp, "/json.UnmarshalDecode")
}

// structWithMember finds the named struct types of the command that have all the members.
func (c *reqAn) structsWith(names ...string) []*types.Named {
	var res []*types.Named
	sc := c.r.W.L.Pkgs[pCmd]
	if sc == nil || sc.Types == nil {
		return nil
	}
	for _, n := range sc.Types.Scope().Names() {
		tn, ok := sc.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt := namedOf(tn.Type())
		if nt == nil {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		all := true
		for _, m := range names {
			if jsonField(st, m) == nil {
				all = false
			}
		}
		if all {
			res = append(res, nt)
		}
	}
	return res
}

// member checks a member of the wire format; kind "list", "string", "bool", "int", "any", "strings", "map".
func (c *reqAn) member(t types.Type, name, kind string) types.Type {
	con := typeName(t) + "." + name
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		c.r.Bad("request-members", con, "", "not a struct")
		return nil
	}
	var f *types.Var
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		if jsonName(st, i) == name && st.Field(i).Exported() {
			f, idx = st.Field(i), i
		}
	}
	if f == nil {
		c.r.Bad("request-members", con, c.r.W.pos(namedPos(t)), "the request has no member "+name)
		return nil
	}
	why := ""
	ft := f.Type()
	str := types.Typ[types.String]
	switch kind {
	case "list":
		if _, ok := ft.Underlying().(*types.Slice); !ok {
			why = "is not a list"
		}
	case "strings":
		if s, ok := ft.Underlying().(*types.Slice); !ok || !types.Identical(s.Elem().Underlying(), str) {
			why = "is not a list of strings"
		}
	case "string":
		if !types.Identical(ft.Underlying(), str) {
			why = "is not a string"
		}
	case "bool":
		if !types.Identical(ft.Underlying(), types.Typ[types.Bool]) {
			why = "is not a boolean"
		}
	case "int":
		if b, ok := ft.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 || b.Kind() == types.Int8 {
			why = "is not an integer"
		}
	case "any":
		if i, ok := ft.Underlying().(*types.Interface); !ok || i.NumMethods() != 0 {
			if !strings.HasSuffix(ft.String(), "RawMessage") && !strings.HasSuffix(ft.String(), "jsontext.Value") {
				why = "does not take every value"
			}
		}
	case "map":
		if m, ok := ft.Underlying().(*types.Map); !ok || !types.Identical(m.Key().Underlying(), str) || !types.Identical(m.Elem().Underlying(), str) {
			why = "is not a map from names to texts"
		}
	}
	if why == "" {
		_, opts, _ := strings.Cut(reflect.StructTag(st.Tag(idx)).Get("json"), ",")
		for _, o := range strings.Split(opts, ",") {
			switch {
			case o == "", o == "omitempty", o == "omitzero":
			default:
				why = "is decoded with the option " + o
			}
		}
	}
	if why == "" {
		why = ownDecoder(c.r.W, ft, 0)
	}
	c.r.Ob("request-members", con, why == "", c.r.W.pos(f.Pos()), "the member "+name+" "+why)
	return ft
}

func namedPos(t types.Type) (p token.Pos) {
	if n := namedOf(t); n != nil {
		return n.Obj().Pos()
	}
	return
}

// ownDecoder: the type decodes itself.
func ownDecoder(w *World, t types.Type, d int) string {
	if d > 5 {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
			ms := types.NewMethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				switch ms.At(i).Obj().Name() {
				case "UnmarshalJSON", "UnmarshalJSONFrom", "UnmarshalText":
					return "is decoded by " + n.Obj().Name() + "'s own decoder"
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return ownDecoder(w, u.Elem(), d+1)
	case *types.Pointer:
		return ownDecoder(w, u.Elem(), d+1)
	}
	return ""
}

func checkC13(r *R) {
	r.Rule("request-members", "every member of a request has its name and type on the wire")
	r.Rule("request-whole", "a request is decoded from all that was read, with the default options")
	r.Rule("version-outcome", "each version is accepted or rejected as specified, and a rejected request lints nothing and ends in an error frame")
	r.Rule("used-as-is", "under version 2 the decoded document is what is used, unmodified")
	r.Rule("old-format", "an old-format request is converted completely: each file with its own rules")
	h := headless(r)
	if h == nil {
		return
	}
	c := &reqAn{r: r, h: h, targets: map[Node]Origin{}, lint: map[Node]bool{}, reads: map[Node]bool{}}
	si := h.stdoutOps()
	c.errW = h.errorFrames(si)
	if !r.Need(len(c.errW) > 0, "the writing of error frames") {
		return
	}
	// the types of the documents
	t2s := c.structsWith("configs")
	if !r.Need(len(t2s) == 1, "the type of a request (one member \"configs\")") {
		return
	}
	c.t2 = t2s[0]
	// decodings
	for _, n := range h.Nodes {
		cc := callOf(n)
		if cc == nil || !h.G.Opaque(n) || !isDecode(calleePath(cc)) {
			continue
		}
		if n.F.Thread != h.G.Root || len(cc.Args) < 2 {
			continue
		}
		// only what reads the request
		fromIn := false
		os := h.G.Origins(VV{n.F, cc.Args[0]})
		for _, o := range os {
			if c.stdin(o) {
				fromIn = true
			}
		}
		if !fromIn {
			continue
		}
		con := "decoding in " + h.where(n)
		why := ""
		for _, o := range os {
			if !c.stdin(o) {
				why = "the bytes decoded are not always all that was read: " + o.String()
			}
		}
		if why == "" && len(cc.Args) > 2 && !isNilConst(cc.Args[2]) {
			why = "decoding has options"
		}
		r.Ob("request-whole", con, why == "", h.G.nodePos(n), why)
		ts := h.G.Origins(VV{n.F, cc.Args[1]})
		if len(ts) != 1 || ts[0].Path != "" {
			r.Bad("request-whole", con+": target", h.G.nodePos(n), "the target of the decoding is not one variable")
			continue
		}
		c.targets[n] = ts[0]
		c.decodes = append(c.decodes, n)
	}
	r.Min("request-whole", 1)
	if !r.Need(len(c.decodes) > 0, "the decoding of the request") {
		return
	}
	// members
	c.wire()
	// what linting is
	for _, rc := range h.ruleCalls(r) {
		f := rc.N.F
		for f.Parent != nil && f.Thread != h.G.Root {
			f = f.Thread
			if f.Parent == nil {
				break
			}
			c.lint[Node{F: f.Parent, I: f.Site, At: f.At}] = true
			f = f.Parent
		}
		if rc.N.F.Thread == h.G.Root {
			c.lint[rc.N] = true
		}
	}
	if !r.Need(len(c.lint) > 0, "the start of the linting") {
		return
	}
	c.uses()
	c.versions()
}

// stdin: all the bytes read from standard input.
func (c *reqAn) stdin(o Origin) bool {
	call, ok := o.V.(*ssa.Call)
	if !ok || o.Path != "#0" {
		return false
	}
	p := calleePath(&call.Call)
	if p != "io.ReadAll" && p != "io/ioutil.ReadAll" || len(call.Call.Args) != 1 {
		return false
	}
	for _, a := range c.h.G.Origins(VV{o.F, call.Call.Args[0]}) {
		g, ok := a.V.(*ssa.Global)
		if !ok || g.Name() != "Stdin" || g.Pkg.Pkg.Path() != "os" {
			// a buffered reader over it
			b, isCall := a.V.(*ssa.Call)
			if isCall && strings.HasPrefix(calleePath(&b.Call), "bufio.NewReader") {
				for _, x := range c.h.G.Origins(VV{a.F, b.Call.Args[0]}) {
					if g, ok := x.V.(*ssa.Global); !ok || g.Name() != "Stdin" {
						return false
					}
				}
				continue
			}
			return false
		}
	}
	return true
}

func (c *reqAn) wire() {
	r := c.r
	c.member(c.t2, "configs", "list")
	c.member(c.t2, "source_overrides", "map")
	c.member(c.t2, "report_syntactic", "bool")
	c.member(c.t2, "report_semantic", "bool")
	elem := func(t types.Type, m string) types.Type {
		if t == nil {
			return nil
		}
		st := t.Underlying().(*types.Struct)
		f := jsonField(st, m)
		if f == nil {
			return nil
		}
		s, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		if _, ok := deref(s.Elem()).Underlying().(*types.Struct); !ok {
			return nil
		}
		return s.Elem()
	}
	if cfg := elem(c.t2, "configs"); cfg != nil {
		c.member(cfg, "file_paths", "strings")
		c.member(cfg, "rules", "list")
		if ru := elem(deref(cfg), "rules"); ru != nil {
			c.member(ru, "name", "string")
			c.member(ru, "options", "any")
		} else {
			r.Bad("request-members", "rules of a configuration", "", "not a list of structs")
		}
	} else {
		r.Bad("request-members", "configurations", "", "not a list of structs")
	}
	// the old format: the decoded document with a list of structs naming a file each
	for _, n := range c.decodes {
		t := deref(c.targets[n].V.Type())
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if jsonField(st, "version") != nil {
			c.member(t, "version", "int")
		}
		if f := jsonField(st, "files"); f != nil {
			c.lists1 = f.Name()
			c.t1 = namedOf(t)
			c.member(t, "files", "list")
			if e := elem(t, "files"); e != nil {
				c.member(e, "file_path", "string")
				c.member(e, "rules", "strings")
			} else {
				r.Bad("request-members", "old format files", "", "not a list of structs")
			}
		}
		if why := ownDecoder(r.W, t, 0); why != "" {
			r.Bad("request-members", typeName(t), r.W.pos(namedPos(t)), "the document "+why)
		}
	}
	r.Need(c.lists1 != "", "the decoding of the old format (a member \"files\")")
	r.Min("request-members", 11)
}

// isVersion: the value is the version of the request.
func (c *reqAn) isVersion(f *Frame, v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		fl, ok := v.(*ssa.Field)
		if !ok {
			return false
		}
		st := fl.X.Type().Underlying().(*types.Struct)
		return jsonName(st, fl.Field) == "version" && c.decoded(VV{f, fl.X})
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || jsonName(st, fa.Field) != "version" {
		return false
	}
	for _, o := range c.h.G.Origins(VV{f, fa.X}) {
		if c.isTarget(o) {
			return true
		}
	}
	return false
}

func (c *reqAn) isTarget(o Origin) bool {
	for _, t := range c.targets {
		if t.V == o.V && t.F == o.F {
			return true
		}
	}
	return false
}

func (c *reqAn) decoded(v VV) bool {
	for _, o := range c.h.G.Origins(v) {
		if c.isTarget(o) {
			return true
		}
	}
	return false
}

// uses: the places that read the request, other than those that build it.
func (c *reqAn) uses() {
	h := c.h
	st := c.t2.Underlying().(*types.Struct)
	cf := jsonField(st, "configs").Name()
	top := map[*Frame]bool{}
	for _, d := range c.decodes {
		if t := topChild(d); t != nil {
			top[t] = true
		}
	}
	for _, n := range h.Nodes {
		if fl, ok := n.I.(*ssa.Field); ok && n.F.Thread == h.G.Root && namedOf(fl.X.Type()) == c.t2 && st.Field(fl.Field).Name() == cf {
			if t := topChild(n); t == nil || !top[t] {
				c.reads[n] = true
			}
			continue
		}
		fa, ok := n.I.(*ssa.FieldAddr)
		if !ok || n.F.Thread != h.G.Root || namedOf(deref(fa.X.Type())) != c.t2 || fieldNameOf(fa) != cf {
			continue
		}
		if t := topChild(n); t != nil && top[t] {
			continue
		}
		load := false
		for _, u := range *fa.Referrers() {
			if x, ok := u.(*ssa.UnOp); ok && x.Op == token.MUL {
				load = true
			}
		}
		if load {
			c.reads[n] = true
		}
	}
	c.r.Need(len(c.reads) > 0, "the use of the request's configurations")
}

type reqOutcome struct {
	lint, used, fail, other string
	created                 string // an error made on the way to acceptance
	trav                    map[Node]map[Node]bool
	trunc                   bool
}

// run simulates the handling of a request with the given version; fail is the decoding that fails.
func (c *reqAn) run(version int64, fail *Node, empty, stopAtUse bool) *reqOutcome {
	h := c.h
	o := &reqOutcome{trav: map[Node]map[Node]bool{}}
	sim := &Sim{G: h.G, SkipThread: true}
	sim.Track = func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return trackDefault(t) || ok && b.Info()&types.IsInteger != 0
	}
	isDec := map[Node]bool{}
	for _, d := range c.decodes {
		isDec[d] = true
	}
	sim.Step = func(n Node, st *SState) bool {
		if c.lint[n] {
			if st.TS == "" || strings.HasPrefix(st.TS, "d") {
				o.lint = h.G.nodePos(n)
			}
			return !stopAtUse
		}
		if c.reads[n] && st.TS == "d" {
			o.used = h.G.nodePos(n)
			if stopAtUse {
				return false
			}
		}
		if c.errW[n] && st.TS == "d" {
			st.TS = "dE"
			if o.created == "" {
				o.created = h.G.nodePos(n)
			}
		}
		if ret, ok := n.I.(*ssa.Return); ok && n.F == h.G.Root && st.TS != "" {
			k := ""
			if len(ret.Results) == 1 {
				k = sim.Fact(st, n.F, ret.Results[0])
			}
			if st.TS == "dE" && strings.HasPrefix(k, "c:") && k != "c:0" {
				o.fail = h.G.nodePos(n)
			} else {
				o.other = h.G.nodePos(n)
			}
		}
		return true
	}
	ints := func(st *SState, f *Frame, v ssa.Value) (constant.Value, bool) {
		k := sim.Fact(st, f, v)
		if !strings.HasPrefix(k, "c:") {
			return nil, false
		}
		x := constant.MakeFromLiteral(strings.TrimPrefix(strings.TrimPrefix(k, "c:"), "-"), token.INT, 0)
		if x.Kind() != constant.Int {
			return nil, false
		}
		if strings.HasPrefix(k, "c:-") {
			x = constant.UnaryOp(token.SUB, x, 0)
		}
		return x, true
	}
	sim.Edge = func(from Node, e Edge, st *SState) bool {
		if v, ok := from.I.(ssa.Value); ok && c.isVersion(from.F, v) {
			sim.set(st, factKey{VV{from.F, v}, -1}, fmt.Sprintf("c:%d", version))
		}
		if b, ok := from.I.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				x, ok1 := ints(st, from.F, b.X)
				y, ok2 := ints(st, from.F, b.Y)
				if ok1 && ok2 {
					sim.set(st, factKey{VV{from.F, b}, -1}, fmt.Sprint(constant.Compare(x, b.Op, y)))
				}
			}
		}
		if x, ok := from.I.(*ssa.If); ok && c.lists1 != "" {
			if emp, ok := c.emptyWhen(from.F, x.Cond); ok {
				if (e.Branch == 1) == emp != empty {
					return false
				}
			}
		}
		if o.trav[from] == nil {
			o.trav[from] = map[Node]bool{}
		}
		o.trav[from][e.To] = true
		return true
	}
	sim.Fork = func(n Node, st *SState) []*SState {
		call, ok := n.I.(*ssa.Call)
		if !ok {
			return nil
		}
		cc := callOf(n)
		cp := calleePath(cc)
		if isEncode(cp) {
			sim.set(st, factKey{VV{n.F, call}, 1}, "nil")
			return []*SState{st}
		}
		if isDec[n] {
			st.TS = "d"
			i := errIdx(cc)
			v := "nil"
			if fail != nil && *fail == n {
				v = "nonnil"
			}
			sim.set(st, factKey{VV{n.F, call}, i}, v)
			return []*SState{st}
		}
		return nil
	}
	sim.Run([]Node{h.Entry}, &SState{})
	o.trunc = sim.Trunc
	return o
}

// emptyWhen: the condition tells whether the list of the old format is empty.
func (c *reqAn) emptyWhen(f *Frame, v ssa.Value) (empty, ok bool) {
	return lenTest(f, v, func(x VV) bool {
		if _, ok := x.V.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		os := c.h.G.Origins(x)
		for _, o := range os {
			if !strings.HasSuffix(o.Path, "."+c.lists1) || namedOf(deref(o.V.Type())) != c.t1 && c.t1 != nil {
				return false
			}
		}
		return len(os) > 0
	})
}

// lenTest: the truth value of a condition on the length of the collection that goes with it being empty.
func lenTest(f *Frame, v ssa.Value, is func(VV) bool) (empty, ok bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e, ok := lenTest(f, x.X, is)
			return !e, ok
		}
	case *ssa.BinOp:
		a, b, op := x.X, x.Y, x.Op.String()
		if isConst(a) {
			a, b = b, a
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
		}
		if k, isC := b.(*ssa.Const); isC && k.Value == nil && is(VV{f, a}) {
			return op == "==", op == "==" || op == "!="
		}
		l := lenArg(a)
		n, isC := constInt(b)
		if l == nil || !isC || !is(VV{f, l}) {
			return false, false
		}
		switch {
		case n == 0 && (op == "==" || op == "<="), n == 1 && op == "<":
			return true, true
		case n == 0 && (op == "!=" || op == ">"), n == 1 && op == ">=":
			return false, true
		}
	}
	return false, false
}

func (c *reqAn) versions() {
	r, h := c.r, c.h
	reps := map[int64]bool{0: true, 2: true, 1: true, 3: true, -1: true}
	tests := 0
	for _, n := range h.Nodes {
		b, ok := n.I.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			hit := false
			for _, o := range h.G.Origins(VV{n.F, p[0]}) {
				if strings.HasPrefix(o.Path, "*") && c.isTarget(Origin{o.F, o.V, ""}) {
					st, ok := deref(o.V.Type()).Underlying().(*types.Struct)
					if ok {
						if f := jsonField(st, "version"); f != nil && strings.HasSuffix(o.Path, "."+f.Name()) {
							hit = true
						}
					}
				}
			}
			if k, ok := constInt(p[1]); ok && hit {
				tests++
				reps[k-1], reps[k], reps[k+1] = true, true, true
			}
		}
	}
	r.Need(tests > 0, "the test of the request's version")
	var vs []int64
	for v := range reps {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		con := fmt.Sprintf("version %d", v)
		o := c.run(v, nil, false, v == 0 || v == 2)
		if o.trunc {
			r.Bad("version-outcome", con, "", "the handling of the request is too complex")
			continue
		}
		switch v {
		case 0, 2:
			why := ""
			if o.used == "" {
				why = "the request is never used"
			} else if o.created != "" {
				why = "a well-formed request can be rejected at " + o.created
			} else if o.other != "" || o.fail != "" {
				why = "a well-formed request can end the run at " + o.other + o.fail
			}
			r.Ob("version-outcome", con+": accepted", why == "", o.used, why)
			for i := range c.decodes {
				d := c.decodes[i]
				if o.trav[d] == nil {
					continue // not reached with this version
				}
				x := c.run(v, &d, false, false)
				c.rejected(con+": malformed for the decoding in "+h.where(d), x, h.G.nodePos(d))
			}
			if v == 0 {
				x := c.run(0, nil, true, false)
				c.rejected(con+": no files", x, "")
			}
			c.contents(v)
		default:
			c.rejected(con, o, "")
		}
	}
	r.Min("version-outcome", 8)
}

func (c *reqAn) rejected(con string, o *reqOutcome, pos string) {
	why := ""
	switch {
	case o.trunc:
		why = "too complex"
	case o.lint != "":
		why = "linting can start at " + o.lint
	case o.used != "":
		why = "the request is used at " + o.used
	case o.other != "":
		why = "the run can end without an error frame or with status 0 at " + o.other
	case o.fail == "":
		why = "the run does not end in an error frame"
	}
	c.r.Ob("version-outcome", con+" rejected", why == "", pos, why)
}

// contents: what the request used under a version is.
func (c *reqAn) contents(v int64) {
	r := c.r
	full := c.run(v, nil, false, false)
	cut2 := func(from Node, e Edge) bool {
		if from.F.Thread != c.h.G.Root {
			return false
		}
		return !full.trav[from][e.To]
	}
	hv := c.h.under(cut2)
	st := c.t2.Underlying().(*types.Struct)
	// every read of the request
	bases := map[Origin]bool{}
	for _, n := range hv.Nodes {
		if fl, ok := n.I.(*ssa.Field); ok && namedOf(fl.X.Type()) == c.t2 && jsonName(st, fl.Field) != "version" {
			for _, o := range hv.G.Origins(VV{n.F, fl.X}) {
				bases[Origin{o.F, o.V, strings.TrimPrefix(o.Path, "*")}] = true
			}
			continue
		}
		fa, ok := n.I.(*ssa.FieldAddr)
		if !ok || namedOf(deref(fa.X.Type())) != c.t2 {
			continue
		}
		load := false
		for _, u := range *fa.Referrers() {
			if _, ok := u.(*ssa.Store); !ok {
				load = true
			}
		}
		if !load || jsonName(st, fa.Field) == "version" {
			continue
		}
		for _, b := range hv.G.addr(VV{n.F, fa.X}, map[okey]bool{}) {
			bases[Origin{b.Root.F, b.Root.V, b.Path}] = true
		}
	}
	// copies of the document
	for again := true; again; {
		again = false
		for _, b := range sortOrigins(bases) {
			if _, ok := b.V.(*ssa.Alloc); !ok || b.Path != "" || c.isTarget(b) {
				continue
			}
			hv.G.buildStores()
			ss := hv.G.stores[rootKey(hv.G, Loc{VV{b.F, b.V}, ""})]
			if len(ss) != 1 || ss[0].Path != "" {
				continue
			}
			delete(bases, b)
			for _, o := range hv.G.Origins(ss[0].Val) {
				bases[Origin{o.F, o.V, strings.TrimPrefix(o.Path, "*")}] = true
			}
			again = true
		}
	}
	con := fmt.Sprintf("version %d", v)
	if !r.Need(len(bases) > 0, "the use of the request under "+con) {
		return
	}
	for _, b := range sortOrigins(bases) {
		if k, ok := b.V.(*ssa.Const); ok && k.Value == nil {
			continue
		}
		if v == 2 {
			why := ""
			if !c.isTarget(Origin{b.F, b.V, ""}) || b.Path != "" || namedOf(deref(b.V.Type())) != c.t2 {
				why = "what is used is not the decoded document: " + b.String()
			} else {
				hv.G.buildStores()
				for _, s := range hv.G.stores[rootKey(hv.G, Loc{VV{b.F, b.V}, ""})] {
					p := s.Path
					if p == "" {
						if k, ok := s.Val.V.(*ssa.Const); ok && k.Value == nil {
							continue // cleared before
						}
					}
					why = "the request is changed at " + hv.G.nodePos(s.Node)
				}
			}
			r.Ob("used-as-is", con+" in "+fnName(b.F.Fn), why == "", c.r.W.pos(b.V.Pos()), why)
			continue
		}
		c.converted(hv, b)
	}
	if v == 2 {
		r.Min("used-as-is", 1)
		c.mutated(hv)
	} else {
		r.Min("old-format", 5)
	}
}

// mutated: nothing changes a part of the decoded document.
func (c *reqAn) mutated(hv *Headless) {
	part := func(v VV) bool {
		for _, o := range hv.G.Origins(v) {
			if c.isTarget(Origin{o.F, o.V, ""}) && strings.HasPrefix(o.Path, "*") {
				return true
			}
		}
		return false
	}
	for _, n := range hv.Nodes {
		why := ""
		switch x := n.I.(type) {
		case *ssa.MapUpdate:
			if part(VV{n.F, x.Map}) {
				why = "an entry of the request is changed"
			}
		case *ssa.Store:
			for _, l := range hv.G.addr(VV{n.F, x.Addr}, map[okey]bool{}) {
				if c.isTarget(Origin{l.Root.F, l.Root.V, ""}) && strings.Contains(l.Path, "*") {
					why = "a part of the request is changed"
				}
				// list elements
				if strings.HasPrefix(l.Path, "*") && c.isTarget(Origin{l.Root.F, l.Root.V, ""}) {
					why = "a part of the request is changed"
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if ok && (b.Name() == "delete" || b.Name() == "clear") && part(VV{n.F, x.Call.Args[0]}) {
				why = "entries of the request are removed"
			}
			if ok && b.Name() == "copy" && part(VV{n.F, x.Call.Args[0]}) {
				why = "a list of the request is overwritten"
			}
			if p := calleePath(&x.Call); !ok && (strings.HasPrefix(p, "slices.Delete") || strings.HasPrefix(p, "slices.Compact") || strings.HasPrefix(p, "maps.DeleteFunc") || strings.HasPrefix(p, "maps.Copy")) && len(x.Call.Args) > 0 && part(VV{n.F, x.Call.Args[0]}) {
				why = "a part of the request is changed"
			}
		}
		if why != "" {
			c.r.Bad("used-as-is", "change in "+hv.where(n), hv.G.nodePos(n), why)
		}
	}
}

// converted: the request of the old format, rebuilt.
func (c *reqAn) converted(hv *Headless, b Origin) {
	r := c.r
	con := "old format in " + fnName(b.F.Fn)
	pos := r.W.pos(b.V.Pos())
	field := func(t types.Type, js string) string {
		if st, ok := deref(t).Underlying().(*types.Struct); ok {
			if f := jsonField(st, js); f != nil {
				return f.Name()
			}
		}
		return "?"
	}
	elem := func(t types.Type, js string) types.Type {
		if st, ok := deref(t).Underlying().(*types.Struct); ok {
			if f := jsonField(st, js); f != nil {
				if s, ok := f.Type().Underlying().(*types.Slice); ok {
					return s.Elem()
				}
			}
		}
		return types.Typ[types.Invalid]
	}
	if c.isTarget(Origin{b.F, b.V, ""}) || namedOf(deref(b.V.Type())) != c.t2 {
		r.Bad("old-format", con, pos, "the request used is not a conversion of the old format: "+b.String())
		return
	}
	cfgT, oldT := elem(c.t2, "configs"), types.Type(types.Typ[types.Invalid])
	if c.t1 != nil {
		oldT = elem(c.t1, "files")
	}
	ruleT := elem(cfgT, "rules")
	// one configuration per file
	var list VV
	n := 0
	hv.G.buildStores()
	for _, s := range hv.G.stores[rootKey(hv.G, Loc{VV{b.F, b.V}, ""})] {
		if s.Path == b.Path+"."+field(c.t2, "configs") {
			list = s.Val
			n++
		}
		for _, m := range []string{"source_overrides", "report_syntactic", "report_semantic"} {
			if strings.HasPrefix(s.Path, b.Path+"."+field(c.t2, m)) {
				k, ok := s.Val.V.(*ssa.Const)
				zero := ok && (k.Value == nil || k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value))
				r.Ob("old-format", con+": "+m, zero, hv.G.nodePos(s.Node), "an old-format request is given a "+m)
			}
		}
	}
	if n == 0 {
		r.Bad("old-format", con, pos, "the configurations of the request are not set")
		return
	}
	var cv *converted
	var why string
	for _, s := range hv.G.stores[rootKey(hv.G, Loc{VV{b.F, b.V}, ""})] {
		if s.Path != b.Path+"."+field(c.t2, "configs") {
			continue
		}
		list = s.Val
		cs, lits, w := hv.lists(list, nil)
		nonEmpty := false
		for _, l := range lits {
			nonEmpty = nonEmpty || len(l) > 0
		}
		switch {
		case w != "":
			why = w
		case len(cs) == 0 && !nonEmpty && n > 1:
			continue // the empty list the configurations are appended to
		case len(cs) != 1 || nonEmpty:
			why = "the configurations are not one list converted from the files"
		default:
			cv = cs[0]
		}
	}
	if why == "" && cv == nil {
		why = "the configurations are not converted from the files"
	}
	if why == "" {
		why = c.oldColl(hv, VV{cv.F, cv.It.Coll})
	}
	if !r.Ob("old-format", con+": a configuration for each file", why == "", pos, why) {
		return
	}
	// its file
	fv, rest := cv.partVals("." + field(cfgT, "file_paths"))
	r.Ob("old-format", con+": file is set", len(fv) > 0, pos, "a configuration has no file")
	for i, v := range fv {
		why := ""
		var es []VV
		var lits [][]VV
		if rest[i] == "" {
			_, lits, why = hv.lists(v, nil)
		} else {
			vs := hv.fieldVals(v, rest[i])
			if len(vs) != 1 {
				why = "the file of a configuration is not set exactly once"
			} else {
				_, lits, why = hv.lists(vs[0], nil)
			}
		}
		if why == "" && (len(lits) != 1 || len(lits[0]) != 1) {
			why = "a configuration does not list exactly one file"
		}
		if why == "" {
			es = lits[0]
			a := hv.anchor(es[0])
			if !cv.source(a, "."+field(oldT, "file_path")) {
				why = "the file of a configuration is not that of the element it is made from: " + a.String()
			}
		}
		r.Ob("old-format", con+": own file", why == "", pos, why)
	}
	// its rules
	rv, rest := cv.partVals("." + field(cfgT, "rules"))
	r.Ob("old-format", con+": rules are set", len(rv) > 0, pos, "a configuration has no rules")
	for i, v := range rv {
		vs := []VV{v}
		if rest[i] != "" {
			vs = hv.fieldVals(v, rest[i])
		}
		why := ""
		var rc *converted
		for _, x := range vs {
			cs, lits, w := hv.lists(x, nil)
			if w != "" {
				why = w
				continue
			}
			for _, l := range lits {
				if len(l) > 0 {
					why = "fixed rules are added"
				}
			}
			if len(cs) > 1 {
				why = "several lists of rules"
			}
			if len(cs) == 1 {
				rc = cs[0]
			}
		}
		if why == "" && rc == nil {
			why = "the rules are not converted"
		}
		if why == "" {
			a := hv.anchor(VV{rc.F, rc.It.Coll})
			if !cv.source(a, "."+field(oldT, "rules")) {
				why = "the rules of a configuration are not those of its file: " + a.String()
			}
		}
		if !r.Ob("old-format", con+": own rules", why == "", pos, why) {
			continue
		}
		as, _ := rc.part(hv, "."+field(ruleT, "name"))
		ok := len(as) > 0
		for _, a := range as {
			if !rc.source(a, "") {
				ok = false
			}
		}
		r.Ob("old-format", con+": rule names", ok, pos, "a rule is not given the name it has in the request")
		as, _ = rc.part(hv, "."+field(ruleT, "options"))
		for _, a := range as {
			k, isC := a.V.(*ssa.Const)
			if a.Kind == "cell" {
				continue // never set
			}
			r.Ob("old-format", con+": no options", a.Kind == "const" && isC && k.Value == nil, pos, "a rule of the old format is given options: "+a.String())
		}
	}
}

// oldColl: the collection is the complete list of the old format.
func (c *reqAn) oldColl(hv *Headless, v VV) string {
	os := hv.G.Origins(v)
	for _, o := range os {
		if !c.isTarget(Origin{o.F, o.V, ""}) || o.Path != "*."+c.lists1 {
			return "the configurations are not made from the list of files of the request: " + o.String()
		}
	}
	if len(os) == 0 {
		return "the configurations are made from nothing"
	}
	return ""
}

// fieldVals: the values stored in a field of a struct value (loaded from a local variable).
func (h *Headless) fieldVals(v VV, path string) []VV {
	f, x := h.throughCopies(v)
	if k, ok := x.(*ssa.Call); ok {
		if h.G.inlined[siteKey{f, k, nil}] {
			var r []VV
			for _, kid := range h.G.kids[siteKey{f, k, nil}] {
				for ret := range h.frameReturns(kid) {
					if h.G.alive(ret) {
						r = append(r, h.fieldVals(VV{kid, ret.I.(*ssa.Return).Results[0]}, path)...)
					}
				}
			}
			return r
		}
	}
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	var r []VV
	seen := map[VV]bool{}
	for _, l := range h.G.addr(VV{f, u.X}, map[okey]bool{}) {
		for _, s := range h.cellStores(l.Root, l.Path+path) {
			if s.Path == l.Path+path && !seen[s.Val] {
				seen[s.Val] = true
				r = append(r, s.Val)
			}
			if s.Path == l.Path {
				if k, ok := s.Val.V.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				for _, w := range h.fieldVals(s.Val, path) {
					if !seen[w] {
						seen[w] = true
						r = append(r, w)
					}
				}
			}
		}
	}
	return r
}

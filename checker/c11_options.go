package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Rules take the options their schema publishes",
		"For every rule with a published schema, the option type its Run function decodes into is found through the call that consumes the options value. Schema and type are matched member by member. What the decoding functions store is computed by a join-based abstract interpreter over SSA, for every schema member in each of the cases absent, null and given (all other members unknown), and for null and ill-formed documents. Field reads and writes of the option types are collected over the functions reachable from Run.",
		checkC11)
}

type jsSchema struct {
	Ref         string               `json:"$ref"`
	Type        string               `json:"type"`
	Default     json.RawMessage      `json:"default"`
	Definitions map[string]*jsSchema `json:"definitions"`
	OneOf       []*jsSchema          `json:"oneOf"`
	Properties  map[string]*jsSchema `json:"properties"`
	Items       *jsSchema            `json:"items"`
	Enum        []any                `json:"enum"`
}

// ruleVar is one package-level rule value.
type ruleVar struct {
	G    *ssa.Global
	Pkg  string // last path element
	Path string
	Name string
	Run  *ssa.Function
	Pos  string
}

// ruleVars: every package-level variable of the rule type in the rule packages.
func ruleVars(w *World) []ruleVar {
	var res []ruleVar
	by := map[*ssa.Global]*ruleVar{}
	var order []*ssa.Global
	for _, f := range w.allFns {
		if !isInitFn(f) || !strings.HasPrefix(fnPkgPath(f), modPath+"/internal/rules/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				set := func(g *ssa.Global, field string, v ssa.Value) {
					rv := by[g]
					if rv == nil {
						p := fnPkgPath(f)
						rv = &ruleVar{G: g, Path: p, Pkg: p[strings.LastIndex(p, "/")+1:], Pos: w.pos(g.Pos())}
						by[g] = rv
						order = append(order, g)
					}
					if s, ok := constStr(v); ok && field == "Name" {
						rv.Name = s
					}
					if field == "Run" {
						switch y := v.(type) {
						case *ssa.Function:
							rv.Run = y
						case *ssa.MakeClosure:
							rv.Run, _ = y.Fn.(*ssa.Function)
						case *ssa.ChangeType:
							rv.Run, _ = y.X.(*ssa.Function)
						}
					}
				}
				isRule := func(g *ssa.Global) bool { return isNamed(deref(g.Type()), modPath+"/internal/rule", "Rule") }
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if g, ok := a.X.(*ssa.Global); ok && isRule(g) {
						set(g, fieldNameOf(a), st.Val)
					}
				case *ssa.Global:
					if !isRule(a) {
						continue
					}
					set(a, "", nil)
					v := st.Val
					if c, ok := v.(*ssa.Call); ok { // a constructor that returns its argument
						if len(c.Call.Args) > 0 {
							v = c.Call.Args[len(c.Call.Args)-1]
						}
					}
					if u, ok := v.(*ssa.UnOp); ok {
						if al, ok := u.X.(*ssa.Alloc); ok {
							for _, ref := range *al.Referrers() {
								if fa, ok := ref.(*ssa.FieldAddr); ok {
									for _, r2 := range *fa.Referrers() {
										if s2, ok := r2.(*ssa.Store); ok && s2.Addr == fa {
											set(a, fieldNameOf(fa), s2.Val)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, g := range order {
		res = append(res, *by[g])
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Path+res[i].G.Name() < res[j].Path+res[j].G.Name() })
	return res
}

// goTypeName: the name the schema generator gives to a definition.
func goTypeName(def string) string {
	var b strings.Builder
	for _, p := range strings.Split(def, "_") {
		if p != "" {
			b.WriteString(strings.ToUpper(p[:1]) + p[1:])
		}
	}
	return b.String()
}

type optAn struct {
	r      *R
	w      *World
	done   map[string]bool
	nested map[string]*jsSchema // named option types -> schema (for the literal rule)
	types  map[string]*types.Named
	fields []optField
}

type optField struct {
	v    *types.Var
	rule *ruleVar
	key  string
}

func checkC11(r *R) {
	r.Rule("schema-type", "schema members and option fields correspond one to one, with equal types")
	r.Rule("default", "a member that is absent or null gets its declared default")
	r.Rule("given", "a member that is given is stored as given; a decoding error is returned")
	r.Rule("enum", "exactly the declared enumeration values are accepted")
	r.Rule("bool-or", "a boolean-or-object member keeps which of the two it was, and its value")
	r.Rule("specifier", "type-or-value specifiers keep their origin, every name, path and package")
	r.Rule("decoded", "a rule uses its options only through the schema's decoder, on every run")
	r.Rule("consulted", "each option is read by code reachable from the rule's Run")
	r.Rule("unmodified", "decoded options are not overwritten")
	w := r.W
	o := &optAn{r: r, w: w, done: map[string]bool{}, nested: map[string]*jsSchema{}, types: map[string]*types.Named{}}
	rules := ruleVars(w)
	if !r.Need(len(rules) > 0, "rule variables") {
		return
	}
	root := filepath.Join(w.L.Repo, "internal", "rules")
	schemas := map[string]*jsSchema{}
	dirs, _ := os.ReadDir(root)
	for _, d := range dirs {
		data, err := os.ReadFile(filepath.Join(root, d.Name(), "schema.json"))
		if err != nil {
			continue
		}
		s := &jsSchema{}
		if err := json.Unmarshal(data, s); err != nil {
			r.Bad("schema-type", d.Name()+"/schema.json", "internal/rules/"+d.Name()+"/schema.json:1", "the schema is not valid JSON: "+err.Error())
			continue
		}
		schemas[d.Name()] = s
	}
	r.Info["schemas"] = len(schemas)
	used := map[string]bool{}
	for i := range rules {
		rv := &rules[i]
		if rv.Run == nil {
			r.Bad("decoded", rv.Pkg, rv.Pos, "the Run function of this rule cannot be found")
			continue
		}
		ts := o.decodes(rv)
		s := schemas[rv.Pkg]
		if s == nil {
			r.Ob("schema-type", rv.Pkg+": no schema", len(ts) == 0, rv.Pos, "the rule decodes options but publishes no schema")
			continue
		}
		used[rv.Pkg] = true
		main := s.Definitions[rv.Pkg+"_options"]
		if main == nil {
			r.Bad("schema-type", rv.Pkg+": definition", rv.Pos, "the schema has no definition "+rv.Pkg+"_options")
			continue
		}
		if len(ts) != 1 {
			r.Bad("decoded", rv.Pkg, rv.Pos, fmt.Sprintf("the rule has a schema, and decodes its options into %d types", len(ts)))
			continue
		}
		r.Ob("decoded", rv.Pkg, true, rv.Pos, "")
		o.typ(rv, s, main, ts[0], rv.Pkg+"_options")
	}
	for d := range schemas {
		r.Ob("decoded", d+": rule", used[d], "internal/rules/"+d+"/schema.json:1", "this schema belongs to no rule")
	}
	o.specifier()
	o.reads()
	o.writes()
	r.Min("given", 60)
	r.Min("default", 60)
	r.Min("consulted", 60)
}

// decodes: the types the options value of a rule is decoded into.
func (o *optAn) decodes(rv *ruleVar) []types.Type {
	var res []types.Type
	run := rv.Run
	if len(run.Params) < 2 {
		return nil
	}
	var follow func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	follow = func(v ssa.Value, d int) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, rr := range *al.Referrers() {
							if ld, ok := rr.(*ssa.UnOp); ok {
								follow(ld, d)
							}
							if mc, ok := rr.(*ssa.MakeClosure); ok {
								for i, b := range mc.Bindings {
									if b == al {
										for _, r3 := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
											if ld, ok := r3.(*ssa.UnOp); ok {
												follow(ld, d)
											}
										}
									}
								}
							}
						}
					}
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						follow(x.Fn.(*ssa.Function).FreeVars[i], d)
					}
				}
			case *ssa.MakeInterface:
				follow(x, d)
			case *ssa.ChangeInterface:
				follow(x, d)
			case *ssa.Phi:
				follow(x, d)
			case *ssa.Call:
				fn := x.Call.StaticCallee()
				if fn == nil || fn.Blocks == nil {
					if s, ok := o.passesOn(x); ok {
						follow(s, d)
						continue
					}
					o.r.Bad("decoded", rv.Pkg+": "+calleeLabel(&x.Call), o.w.pos(x.Pos()), "the options value is handed to code that cannot be followed")
					continue
				}
				if t, ok := o.decoder(rv, fn, x, v); ok {
					dup := false
					for _, p := range res {
						dup = dup || types.Identical(p, t)
					}
					if !dup {
						res = append(res, t)
					}
				} else if d < 3 {
					for i, a := range x.Call.Args {
						if a == v && i < len(fn.Params) {
							follow(fn.Params[i], d+1)
						}
					}
				}
			default:
				o.r.Bad("decoded", rv.Pkg+": use of options", o.w.pos(ref.Pos()), "the options value is inspected without decoding it, so defaults do not apply")
			}
		}
	}
	follow(run.Params[1], 0)
	return res
}

func (o *optAn) passesOn(c *ssa.Call) (ssa.Value, bool) { return nil, false }

// decoder: fn(options, …) returns exactly the decoded options, for given and for missing options.
func (o *optAn) decoder(rv *ruleVar, fn *ssa.Function, call *ssa.Call, v ssa.Value) (types.Type, bool) {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return nil, false
	}
	t := res.At(0).Type()
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != rv.Path {
		return nil, false
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		t = deref(t)
	}
	for _, sc := range []struct {
		label string
		j     *jshape
		nilV  bool
	}{{"given options", &jshape{Kind: "object", Name: "options", Fields: map[string]*jshape{}}, false}, {"no options", nullShape, true}} {
		var args []aval
		for _, a := range call.Call.Args {
			switch {
			case a != v:
				if s, ok := constStr(a); ok {
					args = append(args, avConst(constant.MakeString(s)))
				} else {
					args = append(args, topV)
				}
			case sc.nilV:
				args = append(args, nilV)
			default:
				x := avSymJ("options", sc.j)
				args = append(args, x)
			}
		}
		a := newAbs(o.w)
		outs, ok := a.run(fn, args, nil, &astate{mem: map[int]aval{}}, "", 0)
		con := rv.Pkg + ": " + sc.label
		pos := o.w.pos(call.Pos())
		if !ok {
			o.r.Bad("decoded", con, pos, "the decoding of the options cannot be followed"+noteStr(a))
			continue
		}
		want := "[sym:dec:" + sc.j.Name + " as " + types.TypeString(t, nil) + "]"
		if !hasMethod(t, "UnmarshalJSON") {
			want = ""
		}
		bad := ""
		reached := false
		for _, out := range outs {
			if out.panics {
				continue
			}
			if out.st.fail {
				bad = "a decoding error does not stop the rule: it goes on with " + short(out.rets[0].id())
				continue
			}
			reached = true
			got := out.rets[0]
			if _, isP := res.At(0).Type().Underlying().(*types.Pointer); isP {
				got = a.load(out.st, got)
			}
			if want != "" && got.id() != want {
				bad = "the rule does not get the decoded options but " + short(got.id())
			}
			if got.top {
				bad = "the rule does not get the decoded options"
			}
		}
		if !reached && bad == "" {
			bad = "no path returns the decoded options"
		}
		o.r.Ob("decoded", con, bad == "", pos, bad)
	}
	return t, true
}

func avSymJ(name string, j *jshape) aval {
	return av(&atom{K: "sym", S: "?" + name, J: j})
}

func noteStr(a *Abs) string {
	var ks []string
	for k := range a.notes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return ""
	}
	return " (" + strings.Join(ks, "; ") + ")"
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

// typ matches one schema definition with the Go type options are decoded into.
func (o *optAn) typ(rv *ruleVar, doc, s *jsSchema, t types.Type, def string) {
	key := rv.Pkg + "." + def
	if o.done[key] {
		return
	}
	o.done[key] = true
	n := namedOf(t)
	pos := rv.Pos
	if n != nil {
		pos = o.w.pos(n.Obj().Pos())
		o.types[types.TypeString(n, nil)] = n
		o.nested[types.TypeString(n, nil)] = s
	}
	switch {
	case len(s.Enum) > 0:
		b, ok := t.Underlying().(*types.Basic)
		if !o.r.Ob("schema-type", key, ok && b.Info()&types.IsString != 0, pos, "the schema declares an enumeration of strings, the option type is "+t.Underlying().String()) {
			return
		}
		o.enum(key, s, t, pos)
		return
	case s.Type == "object":
	default:
		o.r.Bad("schema-type", key, pos, "unknown kind of definition "+s.Type)
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !o.r.Ob("schema-type", key, ok, pos, "the schema declares an object, the option type is "+t.String()) {
		return
	}
	byTag := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if name == "" {
			name = st.Field(i).Name()
		}
		if name == "-" {
			continue
		}
		_, dup := byTag[name]
		o.r.Ob("schema-type", key+"."+name+" listed", s.Properties[name] != nil && !dup, o.w.pos(st.Field(i).Pos()), "the option type has a member that the schema does not list (once)")
		byTag[name] = i
	}
	var props []string
	for p := range s.Properties {
		props = append(props, p)
	}
	sort.Strings(props)
	hasUnm := hasMethod(t, "UnmarshalJSON")
	var unm *ssa.Function
	if hasUnm {
		unm = o.method(t, "UnmarshalJSON")
		if unm == nil || unm.Blocks == nil {
			o.r.Bad("given", key, pos, "the decoder of this type cannot be found")
			return
		}
		o.wholeDoc(key, unm, t)
	}
	for _, p := range props {
		ps := s.Properties[p]
		pk := key + "." + p
		i, ok := byTag[p]
		if !o.r.Ob("schema-type", pk, ok, pos, "no field of the option type takes this member") {
			continue
		}
		fld := st.Field(i)
		fpos := o.w.pos(fld.Pos())
		o.fields = append(o.fields, optField{fld, rv, pk})
		if msg := o.fieldType(rv, doc, ps, fld.Type(), p); msg != "" {
			o.r.Bad("schema-type", pk, fpos, msg)
			continue
		}
		if !hasUnm {
			// plain decoding: absent and null leave the zero value
			d, err := o.matchesDefault(ps, zeroV(fld.Type()), nil, nil, fld.Type())
			o.r.Ob("default", pk, d, fpos, "an absent member gets the zero value, not its default"+err)
			o.r.Ob("given", pk, true, fpos, "")
			continue
		}
		o.member(pk, unm, t, i, p, ps, fld.Type())
	}
}

func (o *optAn) method(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return o.w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// exec runs a decoder on a described document; the receiver's cell starts unknown.
func (o *optAn) exec(fn *ssa.Function, t types.Type, j *jshape) (a *Abs, outs []*outcome, cell int, ok bool) {
	a = newAbs(o.w)
	cell = a.cell("receiver")
	st := &astate{mem: map[int]aval{cell: zeroV(t)}}
	if _, isS := t.Underlying().(*types.Struct); !isS {
		st.mem[cell] = avSym("old value")
	} else {
		z := zeroV(t)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			z = writePath(z, []string{strconv.Itoa(i)}, avSym("old value of "+u.Field(i).Name()), false)
		}
		st.mem[cell] = z
	}
	outs, ok = a.run(fn, []aval{av(&atom{K: "ptr", Cell: cell}), av(&atom{K: "text", J: j})}, nil, st, "", 0)
	return
}

func retErr(o *outcome) (nilOK, nonNil bool) {
	if len(o.rets) == 0 {
		return true, false
	}
	return nilness(o.rets[len(o.rets)-1])
}

// member: the three cases of one schema member, all others unknown.
func (o *optAn) member(pk string, fn *ssa.Function, t types.Type, i int, p string, ps *jsSchema, ft types.Type) {
	pos := o.w.pos(fn.Pos())
	for _, mode := range []string{"absent", "null", "given", "no document"} {
		j := &jshape{Kind: "object", Name: "options", Fields: map[string]*jshape{}}
		switch mode {
		case "absent":
			j.Fields[p] = nil
		case "null":
			j.Fields[p] = nullShape
		case "given":
			j.Fields[p] = &jshape{Kind: "given", Name: p}
		case "no document":
			j = nullShape
		}
		rule := "default"
		if mode == "given" {
			rule = "given"
		}
		con := pk + ": " + mode
		a, outs, cell, ok := o.exec(fn, t, j)
		if !ok {
			o.r.Bad(rule, con, pos, "the decoder cannot be followed"+noteStr(a))
			continue
		}
		bad, n := "", 0
		for _, out := range outs {
			if out.panics || out.st.fail {
				continue
			}
			nilOK, _ := retErr(out)
			if !nilOK {
				continue
			}
			n++
			got := readPath(out.st.mem[cell], []string{strconv.Itoa(i)})
			if mode == "given" {
				if x := firstAtom(got); len(got.as) == 1 && x.K == "box" {
					got = av(x.In)
				}
				if got.id() != "[sym:dec:"+p+"]" {
					bad = "a given value is not stored as given: the field holds " + short(got.id())
				}
				continue
			}
			if d, why := o.matchesDefault(ps, got, a, out.st, ft); !d {
				bad = "the field does not get the declared default " + string(ps.Default) + " when the member is " + mode + why
			}
		}
		if n == 0 {
			bad = "no path accepts this document"
		}
		o.r.Ob(rule, con, bad == "", pos, bad+noteIf(bad, a))
	}
}

func noteIf(bad string, a *Abs) string {
	if bad == "" {
		return ""
	}
	return noteStr(a)
}

// wholeDoc: a decoding error is returned, a well-formed document is not refused.
func (o *optAn) wholeDoc(key string, fn *ssa.Function, t types.Type) {
	pos := o.w.pos(fn.Pos())
	for _, k := range []string{"object", "null", "string", "array"} {
		j := &jshape{Kind: k, Name: "options", Fields: map[string]*jshape{}}
		a, outs, _, ok := o.exec(fn, t, j)
		if !ok {
			o.r.Bad("given", key+": "+k, pos, "the decoder cannot be followed"+noteStr(a))
			return
		}
		bad := ""
		for _, out := range outs {
			if out.panics {
				continue
			}
			nilOK, nonNil := retErr(out)
			if out.st.fail && nilOK {
				bad = "a decoding error is not returned"
			}
			if !out.st.fail && nonNil && (k == "object" || k == "null") {
				bad = "a well-formed document is refused"
			}
			if !out.st.fail && nilOK && (k == "string" || k == "array") {
				bad = "a document that is no object is accepted"
			}
		}
		o.r.Ob("given", key+": document is "+k, bad == "", pos, bad+noteIf(bad, a))
	}
}

func (o *optAn) isSpecifier(t types.Type) bool {
	return isNamed(t, modPath+"/internal/utils", "TypeOrValueSpecifier")
}

// fieldType: does the Go type take what the schema member declares.
func (o *optAn) fieldType(rv *ruleVar, doc, s *jsSchema, t types.Type, p string) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if len(s.Default) > 0 {
			t = pt.Elem()
		} else {
			t = pt.Elem()
		}
	}
	basic := func(info types.BasicInfo) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&info != 0
	}
	switch {
	case len(s.OneOf) > 0:
		if iface, ok := t.Underlying().(*types.Interface); ok && iface.Empty() {
			return o.ifaceMember(rv, doc, s, p)
		}
		return o.boolOr(rv, doc, s, t, p)
	case len(s.Enum) > 0:
		if !basic(types.IsString) {
			return "the schema declares an enumeration, the field is " + t.String()
		}
		o.enum(rv.Pkg+"."+p, s, t, "")
		return ""
	case s.Ref != "":
		return o.ref(rv, doc, s.Ref, t)
	}
	switch s.Type {
	case "boolean":
		if !basic(types.IsBoolean) {
			return "the schema declares a boolean, the field is " + t.String()
		}
	case "string":
		if !basic(types.IsString) {
			return "the schema declares a string, the field is " + t.String()
		}
	case "integer", "number":
		if !basic(types.IsNumeric) {
			return "the schema declares a number, the field is " + t.String()
		}
	case "array":
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || s.Items == nil {
			return "the schema declares an array, the field is " + t.String()
		}
		return o.fieldType(rv, doc, s.Items, sl.Elem(), p+"[]")
	default:
		return "undecided schema type " + s.Type
	}
	return ""
}

func (o *optAn) ref(rv *ruleVar, doc *jsSchema, ref string, t types.Type) string {
	name := ref[strings.LastIndex(ref, "/")+1:]
	if strings.Contains(ref, "shared_schemas.json") {
		if name == "typeOrValueSpecifier" && o.isSpecifier(t) {
			return ""
		}
		return "the schema refers to the shared definition " + name + ", the field has " + t.String()
	}
	d := doc.Definitions[name]
	if d == nil {
		return "the schema refers to the missing definition " + name
	}
	n := namedOf(t)
	if n == nil || n.Obj().Name() != goTypeName(name) {
		return "the schema refers to " + name + ", the field has " + t.String()
	}
	o.typ(rv, doc, d, t, name)
	return ""
}

// ifaceMember: the raw value is kept; the rule must handle each alternative itself.
func (o *optAn) ifaceMember(rv *ruleVar, doc, s *jsSchema, p string) string {
	for _, alt := range s.OneOf {
		if alt.Ref == "" {
			continue
		}
		name := alt.Ref[strings.LastIndex(alt.Ref, "/")+1:]
		pkg := rv.Run.Pkg
		var t types.Type
		if pkg != nil {
			if obj := pkg.Pkg.Scope().Lookup(goTypeName(name)); obj != nil {
				t = obj.Type()
			}
		}
		if t == nil || doc.Definitions[name] == nil {
			return "no type for the alternative " + name
		}
		o.typ(rv, doc, doc.Definitions[name], t, name)
	}
	return ""
}

// boolOr: a member that is a boolean or an object.
func (o *optAn) boolOr(rv *ruleVar, doc, s *jsSchema, t types.Type, p string) string {
	fn := o.method(t, "UnmarshalJSON")
	n := namedOf(t)
	if fn == nil || fn.Blocks == nil || n == nil {
		return "the schema declares alternatives, the field is " + t.String()
	}
	var objT types.Type
	for _, alt := range s.OneOf {
		if alt.Ref != "" {
			ta := n.TypeArgs()
			if ta == nil || ta.Len() != 1 {
				return "no type for the object alternative in " + t.String()
			}
			objT = ta.At(0)
			if msg := o.ref(rv, doc, alt.Ref, objT); msg != "" {
				return msg
			}
		} else if alt.Type != "boolean" {
			return "undecided alternative " + alt.Type
		}
	}
	key := rv.Pkg + "." + p
	for _, sc := range []struct {
		label string
		j     *jshape
		want  map[string]string
	}{
		{"null", nullShape, map[string]string{"IsTrue": "[c:false]", "IsFalse": "[c:true]", "IsSet": "[c:false]", "Bool": "[c:false]", "Object": "[nil]"}},
		{"true", &jshape{Kind: "bool", Name: "b", HasStr: false}, map[string]string{"IsSet": "[c:true]", "Object": "[nil]", "IsTrue": "=b", "IsFalse": "!b", "Bool": "=b"}},
		{"object", &jshape{Kind: "object", Name: "o", Closed: true, Fields: map[string]*jshape{}}, map[string]string{"IsTrue": "[c:false]", "IsSet": "[c:true]", "Bool": "[c:true]", "Object": "*"}},
	} {
		vals := []*atom{nil}
		if sc.label == "true" {
			vals = []*atom{{K: "const", C: constant.MakeBool(true)}, {K: "const", C: constant.MakeBool(false)}}
		}
		for _, bv := range vals {
			a := newAbs(o.w)
			a.BoolVal = bv
			cell := a.cell("receiver")
			st := &astate{mem: map[int]aval{cell: topStruct(t)}}
			outs, ok := a.run(fn, []aval{av(&atom{K: "ptr", Cell: cell}), av(&atom{K: "text", J: sc.j})}, nil, st, "", 0)
			con := key + ": " + sc.label
			if bv != nil {
				con = key + ": " + bv.C.String()
			}
			pos := o.w.pos(fn.Pos())
			if !ok {
				o.r.Bad("bool-or", con, pos, "the decoder cannot be followed"+noteStr(a))
				continue
			}
			bad, cnt := "", 0
			for _, out := range outs {
				if out.panics {
					bad = "the decoder panics"
					continue
				}
				nilOK, nonNil := retErr(out)
				// a step that fails while the alternatives are tried is no error; with an
				// object alternative the object's own decoding may fail for good
				if out.st.fail && sc.label == "object" && !o.decodedObj(a, out, cell) {
					continue
				}
				if nonNil && !nilOK && !out.st.fail {
					bad = "a declared alternative is refused"
					continue
				}
				cnt++
				for m, want := range sc.want {
					mf := o.method(t, m)
					if mf == nil {
						continue
					}
					recv := out.st.mem[cell]
					if _, isP := mf.Signature.Recv().Type().(*types.Pointer); isP {
						recv = av(&atom{K: "ptr", Cell: cell})
					} else if mf.Synthetic != "" {
						recv = av(&atom{K: "ptr", Cell: cell})
					}
					o2, ok := a.run(mf, []aval{recv}, nil, out.st, m, 1)
					if !ok {
						bad = "the accessor " + m + " cannot be followed" + noteStr(a)
						continue
					}
					for _, q := range o2 {
						if q.panics {
							continue
						}
						got := q.rets[0]
						w := want
						switch want {
						case "=b":
							w = "[" + bv.id() + "]"
						case "!b":
							w = notV(av(bv)).id()
						case "*":
							g := a.load(q.st, got)
							if g.id() != "[sym:dec:o as "+types.TypeString(objT, nil)+"]" {
								bad = "the object is not delivered as given: " + m + " leads to " + short(g.id())
							}
							continue
						}
						if got.id() != w {
							bad = fmt.Sprintf("%s answers %s, expected %s", m, short(got.id()), w)
						}
					}
				}
			}
			if cnt == 0 && bad == "" {
				bad = "no path accepts this alternative"
			}
			o.r.Ob("bool-or", con, bad == "", pos, bad+noteIf(bad, a))
		}
	}
	return ""
}

// decodedObj: on this path the object decoding itself did succeed.
func (o *optAn) decodedObj(a *Abs, out *outcome, cell int) bool {
	return strings.Contains(a.deepID(out.st, out.st.mem[cell], 0), "sym:dec:o as ")
}

func (a *Abs) deepID(st *astate, v aval, d int) string {
	s := v.id()
	if d > 4 || v.top {
		return s
	}
	for _, x := range v.as {
		switch x.K {
		case "ptr":
			s += "->" + a.deepID(st, a.load(st, av(x)), d+1)
		case "struct":
			for _, f := range x.F {
				s += a.deepID(st, f, d+1)
			}
		}
	}
	return s
}

func topStruct(t types.Type) aval {
	z := zeroV(t)
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			z = writePath(z, []string{strconv.Itoa(i)}, avSym("old value"), false)
		}
	}
	return z
}

// enum: exactly the declared strings are accepted, and stored; null gives the default.
func (o *optAn) enum(key string, s *jsSchema, t types.Type, pos string) {
	fn := o.method(t, "UnmarshalJSON")
	if n := namedOf(t); n != nil {
		pos = o.w.pos(n.Obj().Pos())
	}
	if !o.r.Ob("enum", key, fn != nil && fn.Blocks != nil, pos, "the type of this enumeration has no decoder, so any string is accepted") {
		return
	}
	pos = o.w.pos(fn.Pos())
	decl := map[string]bool{}
	for _, e := range s.Enum {
		if es, ok := e.(string); ok {
			decl[es] = true
		}
	}
	type sc struct {
		label string
		j     *jshape
		want  string // id, "" = must be refused
	}
	var scs []sc
	for e := range decl {
		scs = append(scs, sc{"value " + e, &jshape{Kind: "string", Name: e, HasStr: true, Str: e}, "[c:" + strconv.Quote(e) + "]"})
	}
	scs = append(scs, sc{"any other string", &jshape{Kind: "string", Name: "other", NotStr: decl}, ""})
	scs = append(scs, sc{"a number", &jshape{Kind: "number", Name: "number"}, ""})
	scs = append(scs, sc{"an object", &jshape{Kind: "object", Name: "object", Fields: map[string]*jshape{}}, ""})
	if len(s.Default) > 0 {
		var d string
		json.Unmarshal(s.Default, &d)
		scs = append(scs, sc{"null", nullShape, "[c:" + strconv.Quote(d) + "]"})
	}
	sort.Slice(scs, func(i, j int) bool { return scs[i].label < scs[j].label })
	for _, x := range scs {
		a, outs, cell, ok := o.exec(fn, t, x.j)
		con := key + ": " + x.label
		if !ok {
			o.r.Bad("enum", con, pos, "the decoder cannot be followed"+noteStr(a))
			continue
		}
		bad, n := "", 0
		for _, out := range outs {
			if out.panics {
				if x.want != "" {
					bad = "the decoder panics"
				}
				continue
			}
			nilOK, nonNil := retErr(out)
			if x.want == "" {
				n++
				if nilOK {
					bad = "a value outside the enumeration is accepted"
				}
				continue
			}
			if nonNil {
				bad = "a declared value is refused"
			}
			if nilOK {
				n++
				if got := out.st.mem[cell]; got.id() != x.want {
					bad = "the option becomes " + short(got.id()) + ", expected " + x.want
				}
			}
		}
		if n == 0 && bad == "" {
			bad = "no path accepts this value"
		}
		o.r.Ob("enum", con, bad == "", pos, bad+noteIf(bad, a))
	}
}

// matchesDefault compares an abstract field value with the schema's default.
func (o *optAn) matchesDefault(s *jsSchema, v aval, a *Abs, st *astate, t types.Type) (bool, string) {
	if v.top {
		return false, ", its value is not determined"
	}
	if len(v.as) != 1 {
		return false, ", it can be " + short(v.id())
	}
	var want any
	if len(s.Default) > 0 {
		if json.Unmarshal(s.Default, &want) != nil {
			return false, ", the default cannot be read"
		}
	}
	if o.jsonEq(v, want, a, st, t) {
		return true, ""
	}
	return false, ", it is " + short(v.id())
}

func (o *optAn) jsonEq(v aval, want any, a *Abs, st *astate, t types.Type) bool {
	if v.top || len(v.as) != 1 {
		return false
	}
	var x *atom
	for _, y := range v.as {
		x = y
	}
	if x.K == "box" {
		return o.jsonEq(av(x.In), want, a, st, x.T)
	}
	list := func(n int) bool {
		l, ok := want.([]any)
		if want == nil {
			return n == 0
		}
		if !ok || len(l) != n {
			return false
		}
		el := types.Type(nil)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
		for i := range l {
			e := a.load(st, av(&atom{K: "ptr", Cell: x.Cell, Path: pathJoin(x.Path, strconv.Itoa(i))}))
			if el == nil || !o.jsonEq(e, l[i], a, st, el) {
				return false
			}
		}
		return true
	}
	switch x.K {
	case "const":
		switch w := want.(type) {
		case nil:
			return zeroV(t).id() == v.id()
		case bool:
			return x.C.Kind() == constant.Bool && constant.BoolVal(x.C) == w
		case string:
			return x.C.Kind() == constant.String && constant.StringVal(x.C) == w
		case float64:
			f, ok := constant.Float64Val(constant.ToFloat(x.C))
			return ok && f == w
		}
	case "nil":
		if want == nil {
			return true
		}
		return list(0)
	case "slice":
		return list(x.N)
	case "ptr":
		if a == nil {
			return false
		}
		return o.jsonEq(a.load(st, v), want, a, st, deref(t))
	case "struct":
		if o.isSpecifier(t) {
			m, ok := want.(map[string]any)
			if !ok {
				return false
			}
			return o.specEq(x, m, a, st)
		}
		// a boolean-or-object value
		if mf := o.method(t, "IsTrue"); mf != nil && a != nil {
			w, isB := want.(bool)
			if want != nil && !isB {
				return false
			}
			got := o.ask(a, st, t, "IsTrue", v)
			if got.id() != avBool(w).id() {
				return false
			}
			return o.ask(a, st, t, "Object", v).id() == "[nil]"
		}
		return want == nil && x.id() == firstAtom(zeroV(t)).id()
	}
	// null decoded by the field's own decoder, with no default declared
	if x.K == "sym" && want == nil && strings.HasPrefix(x.S, "dec:null as ") {
		return true
	}
	if x.K == "sym" && want == nil && strings.HasPrefix(x.S, "old value of ") {
		return true // absent: the fresh target keeps its zero value
	}
	return false
}

func (o *optAn) ask(a *Abs, st *astate, t types.Type, m string, v aval) aval {
	mf := o.method(t, m)
	if mf == nil {
		return topV
	}
	if mf.Synthetic != "" || isPtrRecv(mf) {
		c := a.cell("ask")
		st = st.clone()
		st.mem[c] = v
		v = av(&atom{K: "ptr", Cell: c})
	}
	outs, ok := a.run(mf, []aval{v}, nil, st, "ask"+m, 1)
	if !ok {
		return topV
	}
	r := aval{as: map[string]*atom{}}
	for _, q := range outs {
		if !q.panics {
			r = joinV(r, q.rets[0])
		}
	}
	return r
}

func isPtrRecv(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	_, ok := f.Signature.Recv().Type().(*types.Pointer)
	return ok
}

func firstAtom(v aval) *atom {
	for _, x := range v.as {
		return x
	}
	return nil
}

// specKind: the value of the origin constant for a "from" string.
func (o *optAn) specKind(from string) (string, bool) {
	p := o.w.L.Pkgs[modPath+"/internal/utils"]
	if p == nil || p.Types == nil {
		return "", false
	}
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && strings.EqualFold(n, "TypeOrValueSpecifierFrom"+from) {
			return c.Val().ExactString(), true
		}
	}
	return "", false
}

func (o *optAn) specFields() (from, name, path, pkg int, st *types.Struct, ok bool) {
	n := o.w.namedType(modPath+"/internal/utils", "TypeOrValueSpecifier")
	if n == nil {
		return
	}
	st, ok = n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	from, name, path, pkg = -1, -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "From":
			from = i
		case "Name":
			name = i
		case "Path":
			path = i
		case "Package":
			pkg = i
		}
	}
	ok = from >= 0 && name >= 0 && path >= 0 && pkg >= 0
	return
}

func (o *optAn) specEq(x *atom, m map[string]any, a *Abs, st *astate) bool {
	from, name, path, pkg, ty, ok := o.specFields()
	if !ok {
		return false
	}
	f, _ := m["from"].(string)
	k, ok := o.specKind(f)
	if !ok || x.part(strconv.Itoa(from)).id() != "[c:"+k+"]" {
		return false
	}
	nm := m["name"]
	if s, ok := nm.(string); ok {
		nm = []any{s}
	}
	if !o.jsonEq(x.part(strconv.Itoa(name)), nm, a, st, ty.Field(name).Type()) {
		return false
	}
	return o.jsonEq(x.part(strconv.Itoa(path)), m["path"], a, st, types.Typ[types.String]) &&
		o.jsonEq(x.part(strconv.Itoa(pkg)), m["package"], a, st, types.Typ[types.String])
}

// specifier: what decoding a type-or-value specifier stores.
func (o *optAn) specifier() {
	n := o.w.namedType(modPath+"/internal/utils", "TypeOrValueSpecifier")
	if !o.r.Need(n != nil, "utils.TypeOrValueSpecifier") {
		return
	}
	fn := o.method(n, "UnmarshalJSON")
	from, name, path, pkg, _, ok := o.specFields()
	if !o.r.Need(fn != nil && fn.Blocks != nil && ok, "the decoder of type-or-value specifiers") {
		return
	}
	pos := o.w.pos(fn.Pos())
	type sc struct {
		label string
		j     *jshape
		kind  string
		names []string
		path  string
		pkg   string
		bad   bool
	}
	str := func(n string) *jshape { return &jshape{Kind: "string", Name: n} }
	cst := func(s string) *jshape { return &jshape{Kind: "string", Name: s, HasStr: true, Str: s} }
	scs := []sc{{label: "a bare name", j: str("n"), kind: "Name", names: []string{"n"}}}
	for _, f := range []string{"file", "lib", "package"} {
		for _, cnt := range []int{-1, 0, 1, 2, 3} {
			for _, p := range []bool{false, true} {
				for _, q := range []bool{false, true} {
					if q && f != "package" || p && f != "file" {
						continue
					}
					j := &jshape{Kind: "object", Name: "spec", Closed: true, Fields: map[string]*jshape{"from": cst(f)}}
					x := sc{j: j, kind: f, label: "from " + f}
					if cnt < 0 {
						j.Fields["name"] = str("n")
						x.names = []string{"n"}
						x.label += ", one name"
					} else {
						arr := &jshape{Kind: "array", Name: "names"}
						for k := 0; k < cnt; k++ {
							arr.Elems = append(arr.Elems, str(fmt.Sprintf("n%d", k)))
							x.names = append(x.names, fmt.Sprintf("n%d", k))
						}
						j.Fields["name"] = arr
						x.label += fmt.Sprintf(", list of %d names", cnt)
					}
					if p {
						j.Fields["path"] = str("path")
						x.path = "path"
						x.label += ", path"
					}
					if q {
						j.Fields["package"] = str("pkg")
						x.pkg = "pkg"
						x.label += ", package"
					}
					scs = append(scs, x)
				}
			}
		}
	}
	scs = append(scs, sc{label: "from elsewhere", bad: true, j: &jshape{Kind: "object", Name: "spec", Closed: true, Fields: map[string]*jshape{
		"from": {Kind: "string", Name: "from", NotStr: map[string]bool{"file": true, "lib": true, "package": true, "": true}}, "name": str("n")}}})
	for _, x := range scs {
		a, outs, cell, ok := o.exec(fn, n, x.j)
		if !ok {
			o.r.Bad("specifier", x.label, pos, "the decoder cannot be followed"+noteStr(a))
			continue
		}
		bad, cnt := "", 0
		for _, out := range outs {
			if out.panics {
				bad = "the decoder panics"
				continue
			}
			nilOK, nonNil := retErr(out)
			if x.bad {
				cnt++
				if nilOK {
					bad = "an unknown origin is accepted"
				}
				continue
			}
			if nonNil {
				bad = "a declared form is refused"
				continue
			}
			if !nilOK {
				continue
			}
			cnt++
			v := out.st.mem[cell]
			k, _ := o.specKind(x.kind)
			if g := readPath(v, []string{strconv.Itoa(from)}); g.id() != "[c:"+k+"]" {
				bad = "the origin becomes " + short(g.id())
			}
			nv := readPath(v, []string{strconv.Itoa(name)})
			els, ok := (&frameX{a: a}).elems(out.st, nv)
			if !ok || len(els) != len(x.names) {
				bad = fmt.Sprintf("the list of names becomes %s", short(nv.id()))
			} else {
				for i, e := range els {
					if e.id() != "[sym:dec:"+x.names[i]+"]" {
						bad = fmt.Sprintf("name %d becomes %s", i, short(e.id()))
					}
				}
			}
			for _, q := range []struct {
				i    int
				want string
				what string
			}{{path, x.path, "path"}, {pkg, x.pkg, "package"}} {
				w := "[c:\"\"]"
				if q.want != "" {
					w = "[sym:dec:" + q.want + "]"
				}
				if g := readPath(v, []string{strconv.Itoa(q.i)}); g.id() != w {
					bad = "the " + q.what + " becomes " + short(g.id())
				}
			}
		}
		if cnt == 0 && bad == "" {
			bad = "no path accepts this form"
		}
		o.r.Ob("specifier", x.label, bad == "", pos, bad+noteIf(bad, a))
	}
	o.r.Min("specifier", 10)
}

// reads: each option is read somewhere in code its rule can reach.
func (o *optAn) reads() {
	read := map[*types.Var]map[*ssa.Function]bool{}
	for _, f := range o.w.allFns {
		if f.Name() == "UnmarshalJSON" || f.Name() == "MarshalJSON" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				fv, _, ok := fieldOf(v)
				if !ok {
					continue
				}
				if fa, ok := v.(*ssa.FieldAddr); ok && !readsThrough(fa) {
					continue
				}
				if fv.Origin() != nil {
					fv = fv.Origin()
				}
				if read[fv] == nil {
					read[fv] = map[*ssa.Function]bool{}
				}
				read[fv][f] = true
			}
		}
	}
	memo := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, of := range o.fields {
		rs := memo[of.rule.Run]
		if rs == nil {
			rs = reachFrom(o.w, of.rule.Run)
			memo[of.rule.Run] = rs
		}
		ok := false
		for f := range read[of.v] {
			ok = ok || rs[f]
		}
		o.r.Ob("consulted", of.key, ok, o.w.pos(of.v.Pos()), "no code reachable from the rule's Run reads this option")
	}
}

// readsThrough: the address is loaded from, or handed on.
func readsThrough(fa *ssa.FieldAddr) bool {
	for _, ref := range *fa.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Val == fa {
				return true
			}
		case *ssa.UnOp:
			if x.Referrers() != nil && len(*x.Referrers()) > 0 {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// reachFrom: functions referenced, directly or not, from f (closures included).
func reachFrom(w *World, f *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		f = w.real(f)
		if f == nil || res[f] {
			return
		}
		res[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(f)
	return res
}

// writes: option values are built by their decoder, or as a literal that holds the
// declared defaults.
func (o *optAn) writes() {
	for _, f := range o.w.allFns {
		if !strings.HasPrefix(fnPkgPath(f), modPath+"/internal/rules/") {
			continue
		}
		decoderFn := f.Name() == "UnmarshalJSON"
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				addr := st.Addr
				fa, ok := addr.(*ssa.FieldAddr)
				for ok {
					n := namedOf(deref(fa.X.Type()))
					if n == nil {
						break
					}
					s := o.nested[types.TypeString(n, nil)]
					if s == nil {
						fa, ok = fa.X.(*ssa.FieldAddr)
						continue
					}
					if decoderFn {
						break
					}
					name := fieldNameOf(fa)
					con := fmt.Sprintf("%s: %s.%s", fnName(f), n.Obj().Name(), name)
					al, isAl := fa.X.(*ssa.Alloc)
					if !isAl || !onlyFieldWrites(al) {
						o.r.Bad("unmodified", con, o.w.pos(st.Pos()), "an option is overwritten after it was decoded")
						break
					}
					tag := ""
					str := n.Underlying().(*types.Struct)
					for i := 0; i < str.NumFields(); i++ {
						if str.Field(i).Name() == name {
							tag, _, _ = strings.Cut(reflect.StructTag(str.Tag(i)).Get("json"), ",")
						}
					}
					ps := s.Properties[tag]
					good := false
					if ps != nil {
						a := newAbs(o.w)
						v := a.literal(st.Val, 0)
						stt := &astate{mem: map[int]aval{}}
						good, _ = o.matchesDefault(ps, v, a, stt, deref(fa.Type()))
					}
					o.r.Ob("unmodified", con, good, o.w.pos(st.Pos()), "an options value built in code does not hold the declared default")
					break
				}
			}
		}
		// a literal that leaves out a field whose default is not the zero value
		if !decoderFn {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if al, ok := ins.(*ssa.Alloc); ok {
						o.literal(f, al)
					}
				}
			}
		}
	}
}

func onlyFieldWrites(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == al {
				return false
			}
		case *ssa.Call:
			// filled by a callee (a decoder), then changed
			return false
		case *ssa.MakeInterface:
			return false
		}
	}
	return true
}

func (o *optAn) literal(f *ssa.Function, al *ssa.Alloc) {
	n := namedOf(deref(al.Type()))
	if n == nil {
		return
	}
	s := o.nested[types.TypeString(n, nil)]
	if s == nil {
		return
	}
	str, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	set := map[string]bool{}
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
					set[fieldNameOf(x)] = true
				}
			}
		case *ssa.Store:
			if x.Addr == al {
				return // a copy of a whole value
			}
		case *ssa.Call, *ssa.MakeInterface:
			return
		}
	}
	if len(set) == 0 {
		// an address-taken zero value: only a decoder target may look like this
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		if set[str.Field(i).Name()] {
			continue
		}
		tag, _, _ := strings.Cut(reflect.StructTag(str.Tag(i)).Get("json"), ",")
		ps := s.Properties[tag]
		if ps == nil {
			continue
		}
		good, _ := o.matchesDefault(ps, zeroV(str.Field(i).Type()), newAbs(o.w), &astate{mem: map[int]aval{}}, str.Field(i).Type())
		o.r.Ob("unmodified", fmt.Sprintf("%s: %s.%s", fnName(f), n.Obj().Name(), str.Field(i).Name()), good, o.w.pos(al.Pos()), "an options value built in code leaves out a field whose default is not the zero value")
	}
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every report says what is wrong in finished words",
		"Backward resolution of every message value handed to a reporting function or put into a suggestion (through builders, parameters of all callers, closures, variables and structs) to its alternatives; each must set an id that is a constant name and a description that cannot be empty; every format string must fit its arguments in number and kind, and no other text may hold placeholders.",
		checkC26)
}

type msgAn struct {
	r *R
	b *Back
}

var idRE = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_-]*$`)
var verbRE = regexp.MustCompile(`%[-+# 0]*(\[\d+\])?[0-9*]*(\.[0-9*]*)?[a-zA-Z%]`)
var moustacheRE = regexp.MustCompile(`\{\{|\}\}`)

func isMessageT(t types.Type) bool { return isNamed(t, pRule, "RuleMessage") }

func structField(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func checkC26(r *R) {
	r.Rule("has-id", "the id of every message is set on every path, to a constant name")
	r.Rule("has-text", "the description of every message is set on every path, to text that cannot be empty")
	r.Rule("finished-text", "every format fits its arguments; no other text holds placeholders")
	a := &msgAn{r: r, b: newBack(r.W)}
	nr, ns, nf, nl := 0, 0, 0, 0
	for _, f := range r.W.allFns {
		pp := fnPkgPath(f)
		if !strings.HasPrefix(pp, modPath+"/internal/") || !isRepoPath(pp) || strings.HasSuffix(pp, "/rule_tester") {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if f.Pkg != nil && pp != modPath+"/internal/linter" && isReportFn(x.Call.Value) {
						for _, arg := range x.Call.Args {
							if isMessageT(arg.Type()) {
								nr++
								a.message(f, arg, "", x.Pos(), "the report in "+fnName(f))
							}
							if isRuleDiagT(arg.Type()) {
								nr++
								if i := structField(arg.Type(), "Message"); r.Need(i >= 0, "the message of a diagnostic") {
									a.message(f, arg, fmt.Sprintf(".%d", i), x.Pos(), "the report in "+fnName(f))
								}
							}
						}
					}
					if isFormatting(&x.Call) {
						nf++
						a.format(f, x)
					}
				case *ssa.FieldAddr:
					if isNamed(deref(x.X.Type()), pRule, "RuleLabeledRange") && deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name() == "Label" {
						for _, u := range *x.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
								nl++
								bad := ""
								for _, l := range a.b.Leaves(s.Val, "", textStop) {
									if l.V == nil || l.Path != "" || !a.nonEmpty(l.V, 0) {
										bad = "the label can be empty"
									} else {
										a.unfilled(l, "the label in "+fnName(f))
									}
								}
								r.Ob("has-text", "the label in "+fnName(f), bad == "", r.W.pos(s.Pos()), bad)
							}
						}
					} else if isNamed(deref(x.X.Type()), pRule, "RuleLabeledRange") && storedAt(x) && !siblingStored(x, "Label") {
						r.Bad("has-text", "the label in "+fnName(f), r.W.pos(x.Pos()), "the labelled range has no label")
					}
					// suggestions are built in place
					if isNamed(deref(x.X.Type()), pRule, "RuleSuggestion") {
						if st := deref(x.X.Type()); st.Underlying().(*types.Struct).Field(x.Field).Name() == "Message" {
							for _, u := range *x.Referrers() {
								if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
									ns++
									a.message(f, s.Val, "", s.Pos(), "the suggestion in "+fnName(f))
								}
							}
						} else if storedAt(x) && !siblingStored(x, "Message") {
							r.Bad("has-id", "the suggestion in "+fnName(f), r.W.pos(x.Pos()), "the suggestion is built without a message")
						}
					}
				}
			}
		}
	}
	r.Info["reports"] = nr
	r.Info["suggestions"] = ns
	r.Info["labels"] = nl
	r.Info["formats"] = nf
	r.Min("has-id", 150)
	r.Min("has-text", 150)
	r.Min("finished-text", 80)
}

func storedAt(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
			return true
		}
	}
	return false
}

func siblingStored(fa *ssa.FieldAddr, name string) bool {
	st := deref(fa.X.Type()).Underlying().(*types.Struct)
	for _, u := range *fa.X.Referrers() {
		if y, ok := u.(*ssa.FieldAddr); ok && st.Field(y.Field).Name() == name {
			if storedAt(y) {
				return true
			}
			// member by member
			for _, z := range *y.Referrers() {
				if w, ok := z.(*ssa.FieldAddr); ok && storedAt(w) {
					return true
				}
			}
		}
		if s, ok := u.(*ssa.Store); ok && s.Addr == fa.X {
			return true
		}
	}
	return false
}

func (a *msgAn) message(f *ssa.Function, v ssa.Value, path string, pos token.Pos, con string) {
	mt := v.Type()
	if path != "" {
		mt = mt.Underlying().(*types.Struct).Field(structField(mt, "Message")).Type()
	}
	id, desc := structField(mt, "Id"), structField(mt, "Description")
	if !a.r.Need(id >= 0 && desc >= 0, "the members of messages") {
		return
	}
	w := a.r.W
	bad, badPos := "", pos
	for _, l := range a.b.Leaves(v, path+fmt.Sprintf(".%d", id), nil) {
		c, ok := l.V.(*ssa.Const)
		switch {
		case l.Zero && l.V == nil:
			bad, badPos = "on a path the message has no id", l.At
		case !ok:
			bad, badPos = "the id is not a constant", l.At
		case c.Value == nil || c.Value.Kind() != constant.String || !idRE.MatchString(constant.StringVal(c.Value)):
			bad, badPos = "the id is not a name", l.At
		}
	}
	if !badPos.IsValid() {
		badPos = pos
	}
	a.r.Ob("has-id", con, bad == "", w.pos(badPos), bad)
	bad, badPos = "", pos
	for _, l := range a.b.Leaves(v, path+fmt.Sprintf(".%d", desc), textStop) {
		if l.Zero && l.V == nil {
			bad, badPos = "on a path the message has no description", l.At
			continue
		}
		if l.V == nil || l.Path != "" || !a.nonEmpty(l.V, 0) {
			bad, badPos = "the description can be empty", l.At
			continue
		}
		a.unfilled(l, con)
	}
	if !badPos.IsValid() {
		badPos = pos
	}
	a.r.Ob("has-text", con, bad == "", w.pos(badPos), bad)
}

// unfilled: fixed text that is printed as it stands must not hold placeholders.
func (a *msgAn) unfilled(l BLeaf, con string) {
	if c, ok := l.V.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		s := constant.StringVal(c.Value)
		if moustacheRE.MatchString(s) || hasVerb(s) {
			a.r.Bad("finished-text", con, a.r.W.pos(l.At), "the text holds a placeholder that nothing fills: "+s)
		}
	}
	if b, ok := l.V.(*ssa.BinOp); ok && b.Op == token.ADD {
		for _, x := range []ssa.Value{b.X, b.Y} {
			for _, y := range a.b.Leaves(x, "", textStop) {
				if y.V != nil && y.Path == "" {
					a.unfilled(y, con)
				}
			}
		}
	}
}

func textStop(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.Call:
		return isFormatting(&x.Call)
	}
	return false
}

func isFormatting(c *ssa.CallCommon) bool {
	switch calleePath(c) {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Printf", "fmt.Fprintf":
		return true
	}
	return false
}

func hasVerb(s string) bool {
	for _, v := range verbRE.FindAllString(s, -1) {
		switch v[len(v)-1] {
		case 's', 'v', 'q', 'd', 't':
			if len(v) == 2 {
				return true
			}
		}
	}
	return false
}

// constText: the constants a text can be.
func (a *msgAn) constText(v ssa.Value) ([]string, bool) {
	var r []string
	for _, l := range a.b.Leaves(v, "", textStop) {
		switch x := l.V.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.String {
				return nil, false
			}
			r = append(r, constant.StringVal(x.Value))
		case *ssa.BinOp:
			p, ok1 := a.constText(x.X)
			q, ok2 := a.constText(x.Y)
			if !ok1 || !ok2 || x.Op != token.ADD {
				return nil, false
			}
			for _, s := range p {
				for _, t := range q {
					r = append(r, s+t)
				}
			}
		default:
			return nil, false
		}
	}
	return r, len(r) > 0
}

func (a *msgAn) nonEmpty(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.String && strings.TrimSpace(constant.StringVal(x.Value)) != ""
	case *ssa.BinOp:
		return x.Op == token.ADD && (a.all(x.X, d) || a.all(x.Y, d))
	case *ssa.Call:
		if isFormatting(&x.Call) {
			fs, ok := a.constText(formatArg(&x.Call))
			if !ok {
				return false
			}
			for _, s := range fs {
				if strings.TrimSpace(verbRE.ReplaceAllString(s, "")) == "" {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (a *msgAn) all(v ssa.Value, d int) bool {
	ls := a.b.Leaves(v, "", textStop)
	for _, l := range ls {
		if l.V == nil || l.Path != "" || !a.nonEmpty(l.V, d+1) {
			return false
		}
	}
	return len(ls) > 0
}

func formatArg(c *ssa.CallCommon) ssa.Value {
	if calleePath(c) == "fmt.Fprintf" {
		return c.Args[1]
	}
	return c.Args[0]
}

// format: number and kinds of the arguments.
func (a *msgAn) format(f *ssa.Function, c *ssa.Call) {
	con := "the text made in " + fnName(f)
	pos := a.r.W.pos(c.Pos())
	fs, ok := a.constText(formatArg(&c.Call))
	if !ok {
		a.r.Bad("finished-text", con, pos, "the format is not fixed: text from elsewhere can hold placeholders")
		return
	}
	args, ok := variadicVals(c.Call.Args[len(c.Call.Args)-1])
	bad := ""
	for _, s := range fs {
		n := 0
		used := map[int]bool{}
		for _, v := range verbRE.FindAllString(s, -1) {
			verb := v[len(v)-1]
			if verb == '%' {
				continue
			}
			if strings.Contains(v, "*") {
				bad = "the width of a placeholder is an argument"
				continue
			}
			if m := regexp.MustCompile(`\[(\d+)\]`).FindStringSubmatch(v); m != nil {
				fmt.Sscan(m[1], &n)
				n--
			}
			used[n] = true
			if ok && n < len(args) && args[n] != nil {
				if t := printedType(args[n]); !verbFits(verb, t) {
					bad = fmt.Sprintf("placeholder %d (%s) is filled with a value of type %s", n+1, v, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
				}
			}
			n++
		}
		most := -1
		for i := range used {
			most = max(most, i)
		}
		if strings.HasSuffix(strings.ReplaceAll(s, "%%", ""), "%") {
			bad = "the format ends within a placeholder"
		}
		if ok && most+1 > len(args) {
			bad = fmt.Sprintf("the format has %d placeholders, but %d values are given", most+1, len(args))
		}
		if ok && len(used) < len(args) {
			bad = fmt.Sprintf("%d values are given for %d placeholders", len(args), len(used))
		}
	}
	if !ok {
		bad = "the values are not listed"
	}
	a.r.Ob("finished-text", con, bad == "", pos, bad)
}

// variadicVals: the values listed for a ...any parameter.
func variadicVals(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	ar, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	r := make([]ssa.Value, ar.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok || k < 0 || k >= ar.Len() {
			return nil, false
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				r[k] = s.Val
			}
		}
	}
	return r, true
}

func printedType(v ssa.Value) types.Type {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X.Type()
	}
	return v.Type()
}

func verbFits(verb byte, t types.Type) bool {
	if verb == 'v' || verb == 'T' {
		return verb == 'T' || readable(t)
	}
	for _, m := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok && (verb == 's' || verb == 'q') {
				return true
			}
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return verb == 'w'
	}
	switch verb {
	case 's', 'q':
		return b.Info()&types.IsString != 0 || verb == 'q' && b.Info()&types.IsInteger != 0
	case 'd', 'x', 'X', 'o', 'b', 'c', 'U':
		return b.Info()&types.IsInteger != 0 || (verb == 'x' || verb == 'X') && b.Info()&types.IsString != 0
	case 't':
		return b.Info()&types.IsBoolean != 0
	case 'f', 'g', 'e':
		return b.Info()&types.IsFloat != 0
	}
	return false
}

// readable: printed by %v as words, not as the address or the insides of an object.
func readable(t types.Type) bool {
	for _, m := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return readable(u.Elem())
	case *types.Interface:
		return true
	}
	return false
}

package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "Every documented rule can be requested by its name and runs its own code",
		"The list of rules is evaluated from the initialisers of the package-level variables (composite literals, appends and helper functions) into a multiset of rule variables. It is compared with the rule variables of the packages under internal/rules and with the rules README.md marks as implemented. The name and the code of each rule variable are read off its initialiser. The table the requests are resolved with is followed in the supergraph of headless mode: filled in a complete loop over that list, each rule under its own name, looked up with the unaltered name of the request; an entry that cannot be resolved does not get past the loop.",
		checkC10)
}

// ruleList evaluates a list of rules to the rule variables in it.
func ruleList(w *World, v ssa.Value, d int) ([]*ssa.Global, bool) {
	if d > 8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.ChangeType:
		return ruleList(w, x.X, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return globalRuleList(w, g, d+1)
		}
	case *ssa.Global:
		return globalRuleList(w, x, d+1)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil && !isZero(x.Low) || x.High != nil && !fullLen(al, x.High) {
			return nil, false
		}
		return arrayRules(w, al)
	case *ssa.Alloc:
		return arrayRules(w, x)
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return nil, ok && n == 0
	case *ssa.Call:
		switch cp := calleePath(&x.Call); {
		case isBuiltin(&x.Call, "append"):
			a, ok1 := ruleList(w, x.Call.Args[0], d+1)
			b, ok2 := ruleList(w, x.Call.Args[1], d+1)
			return append(append([]*ssa.Global{}, a...), b...), ok1 && ok2
		case strings.HasPrefix(cp, "slices.Clone"):
			return ruleList(w, x.Call.Args[0], d+1)
		case strings.HasPrefix(cp, "slices.Concat"):
			sl, ok := x.Call.Args[0].(*ssa.Slice)
			if !ok {
				return nil, false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			var res []*ssa.Global
			for _, e := range arrayElems(al) {
				l, ok := ruleList(w, e, d+1)
				if !ok {
					return nil, false
				}
				res = append(res, l...)
			}
			return res, true
		}
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !strings.HasPrefix(fnPkgPath(f), modPath) {
			return nil, false
		}
		var ret *ssa.Return
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if ret != nil {
					return nil, false
				}
				ret = r
			}
		}
		if ret == nil || len(ret.Results) != 1 {
			return nil, false
		}
		return ruleList(w, ret.Results[0], d+1)
	}
	return nil, false
}

func isZero(v ssa.Value) bool { n, ok := constInt(v); return ok && n == 0 }

func isBuiltin(c *ssa.CallCommon, name string) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func fullLen(al *ssa.Alloc, v ssa.Value) bool {
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	n, isC := constInt(v)
	return ok && isC && n == arr.Len()
}

func arrayElems(al *ssa.Alloc) []ssa.Value {
	var res []ssa.Value
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					res = append(res, st.Val)
				}
			}
		}
	}
	return res
}

func arrayRules(w *World, al *ssa.Alloc) ([]*ssa.Global, bool) {
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	es := arrayElems(al)
	if int64(len(es)) != arr.Len() {
		return nil, false
	}
	var res []*ssa.Global
	for _, e := range es {
		g, ok := ruleElem(e)
		if !ok {
			return nil, false
		}
		res = append(res, g)
	}
	return res, true
}

func ruleElem(v ssa.Value) (*ssa.Global, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			g, ok := x.X.(*ssa.Global)
			return g, ok
		}
	case *ssa.Global: // list of pointers
		return x, true
	}
	return nil, false
}

// globalRuleList: what the initialisers leave in a package-level list (nothing else writes it).
func globalRuleList(w *World, g *ssa.Global, d int) ([]*ssa.Global, bool) {
	var vals []ssa.Value
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if x.Addr == g {
						if !isInitFn(f) {
							return nil, false
						}
						vals = append(vals, x.Val)
					}
				}
			}
		}
	}
	if len(vals) != 1 {
		return nil, false
	}
	return ruleList(w, vals[0], d+1)
}

func kebab(pkg string) string { return strings.ReplaceAll(pkg, "_", "-") }

var readmeItem = regexp.MustCompile(`(?m)^\s*[-*] \[[xX]\] \[([a-z0-9-]+)\]`)

func checkC10(r *R) {
	w := r.W
	r.Rule("named", "a rule variable has a non-empty constant name that belongs to its package and to no other rule, and code of its own package")
	r.Rule("listed", "every rule variable is in the list of rules exactly once")
	r.Rule("documented", "every rule README.md marks as implemented is in the list under that name")
	r.Rule("own-rules", "the rule that runs is the registered rule whose name is the one in the request; no requested rule is passed over")
	r.Rule("registry-lookup", "the table of rules by name is filled completely from the list, each rule under its own name")
	r.Rule("list-constant", "the list of rules is not changed after initialisation")
	vars := ruleVars(w)
	byG := map[*ssa.Global]*ruleVar{}
	seen := map[string]string{}
	for i := range vars {
		v := &vars[i]
		byG[v.G] = v
		con := v.Pkg + "." + v.G.Name()
		r.Ob("named", con+" name", v.Name != "", v.Pos, "the name is not a constant string")
		if v.Name != "" {
			r.Ob("named", con+" unique", seen[v.Name] == "", v.Pos, "the name "+v.Name+" is also that of "+seen[v.Name])
			seen[v.Name] = con
			r.Ob("named", con+" own name", v.Name == kebab(v.Pkg), v.Pos, "the name "+v.Name+" is not that of the rule in package "+v.Pkg)
		}
		own := v.Run != nil && (fnPkgPath(v.Run) == v.Path)
		r.Ob("named", con+" code", own, v.Pos, "the code that runs is not a function of the rule's own package")
	}

	// packages that declare a rule but are not part of the program
	root := filepath.Join(w.L.Repo, "internal", "rules")
	dirs, _ := os.ReadDir(root)
	for _, d := range dirs {
		have := false
		for _, v := range vars {
			have = have || v.Pkg == d.Name()
		}
		if n := declaresRule(filepath.Join(root, d.Name())); n != "" {
			r.Ob("listed", d.Name()+": in the program", have, "internal/rules/"+d.Name()+"/"+n, "the rule declared here is not part of the program")
		}
	}

	h := headless(r)
	if !r.Need(h != nil, "the headless entry point") {
		return
	}
	inv := h.ruleCalls(r)
	setups := 0
	for _, rc := range inv {
		if rc.Setup {
			setups++
		}
	}
	if !r.Need(setups > 0, "the call that sets up a rule for a file") {
		return
	}
	h.ruleLists = nil
	h.ownRules(r, inv)

	// the list(s) the table is filled from
	lists := h.ruleLists
	h.noCuts(r, "list-constant", elemIs("Rule"))
	if !r.Need(len(lists) > 0, "the list the table of rules is filled from") {
		return
	}
	in := map[*ssa.Global]int{}
	for _, o := range lists {
		l, ok := ruleList(w, o.V, 0)
		if !r.Ob("listed", "the list of rules", ok, w.pos(o.V.Pos()), "its elements cannot be determined from the initialisers") {
			return
		}
		in = map[*ssa.Global]int{}
		for _, g := range l {
			in[g]++
		}
		names := map[string]bool{}
		for _, v := range vars {
			con := v.Pkg + "." + v.G.Name()
			r.Ob("listed", con, in[v.G] > 0, v.Pos, "the rule is not in the list of rules: it cannot be requested")
			r.Ob("listed", con+" once", in[v.G] < 2, v.Pos, "the rule is listed more than once")
			if in[v.G] > 0 {
				names[v.Name] = true
			}
		}
		for g := range in {
			if byG[g] == nil {
				r.Bad("listed", "the list of rules: "+g.String(), w.pos(g.Pos()), "an entry that is not a rule variable of a rule package")
			}
		}
		b, err := os.ReadFile(filepath.Join(w.L.Repo, "README.md"))
		if !r.Need(err == nil, "README.md") {
			return
		}
		var docs []string
		for _, m := range readmeItem.FindAllStringSubmatch(string(b), -1) {
			docs = append(docs, m[1])
		}
		sort.Strings(docs)
		for _, d := range docs {
			r.Ob("documented", d, names[d], "README.md", "documented as implemented, but no rule of that name can be requested")
		}
		// not changed afterwards
		if g, ok := o.V.(*ssa.Global); ok {
			r.Ob("list-constant", g.Name(), true, w.pos(g.Pos()), "")
			for _, f := range w.allFns {
				if isInitFn(f) {
					continue
				}
				for _, bl := range f.Blocks {
					for _, ins := range bl.Instrs {
						st, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						a := st.Addr
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
						}
						if a == g || fromGlobalList(a, g) {
							r.Bad("list-constant", fnName(f), w.pos(st.Pos()), "the list of rules is changed after initialisation")
						}
						if rg, ok := a.(*ssa.Global); ok && byG[rg] != nil {
							r.Bad("list-constant", fnName(f)+" "+rg.Name(), w.pos(st.Pos()), "a rule is changed after initialisation")
						}
					}
				}
			}
		}
	}
	r.Min("named", 20)
	r.Min("listed", 20)
	r.Min("documented", 20)
	r.Info["rule variables"] = len(vars)
	r.Info["listed"] = len(in)
}

// declaresRule: the file of a package on disk in which a rule literal stands.
func declaresRule(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		found := false
		for _, dc := range af.Decls {
			gd, ok := dc.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			ast.Inspect(gd, func(n ast.Node) bool {
				if cl, ok := n.(*ast.CompositeLit); ok {
					if se, ok := cl.Type.(*ast.SelectorExpr); ok && se.Sel.Name == "Rule" {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == "rule" {
							found = true
						}
					}
				}
				return true
			})
		}
		if found {
			return filepath.Base(f)
		}
	}
	return ""
}

func fromGlobalList(a ssa.Value, g *ssa.Global) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	v := ia.X
	if s, ok := v.(*ssa.Slice); ok {
		v = s.X
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.X == g
}

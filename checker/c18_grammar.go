package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Sets of syntax kinds, and the grammar of the syntax tree: which kinds each field of a
// node of each kind can hold, and whether it may be missing. The engine publishes it as
// _scripts/ast.json, from which its own tree code is generated.
// ---------------------------------------------------------------------------

// KS is a set of kinds; two more elements stand for nil and for a value that is no node.
type KS [8]uint64

const (
	ksLost  = 0   // kind Unknown, which no node has: it shows that nothing is known of the node
	ksMaybe = 509 // nil perhaps, with nothing that shows it
	ksNil   = 510
	ksOther = 511
	ksKinds = 500
)

func (s *KS) add(i int)     { s[i>>6] |= 1 << uint(i&63) }
func (s *KS) del(i int)     { s[i>>6] &^= 1 << uint(i&63) }
func (s KS) has(i int) bool { return s[i>>6]&(1<<uint(i&63)) != 0 }
func (s KS) or(o KS) KS {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}
func (s KS) and(o KS) KS {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s KS) minus(o KS) KS {
	for i := range s {
		s[i] &^= o[i]
	}
	return s
}
func (s KS) empty() bool      { return s == KS{} }
func (s KS) within(o KS) bool { return s.minus(o).empty() }
func (s KS) size() (n int) {
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return
}
func (s KS) each(f func(int)) {
	for i, w := range s {
		for w != 0 {
			b := bits.TrailingZeros64(w)
			f(i*64 + b)
			w &^= 1 << uint(b)
		}
	}
}
func ksOf(is ...int) (s KS) {
	for _, i := range is {
		s.add(i)
	}
	return
}

var (
	ksJustNil   = ksOf(ksNil)
	ksMaybeNil  = ksOf(ksMaybe)
	ksEither    = ksOf(ksNil, ksMaybe)
	ksUnknown   = ksOf(ksOther, ksMaybe)
	ksJustOther = ksOf(ksOther)
)

type gField struct {
	Kinds    KS
	List     bool
	Optional bool
	Node     bool // holds nodes
}

type grammar struct {
	kindName  map[int]string
	all       KS            // every kind there is
	nodes     KS            // the kinds that nodes have
	structs   map[string]KS // name of a node struct -> the kinds its nodes have
	structsOf map[int][]string
	bases     map[string]KS                // the same for the parts structs are made of
	fields    map[string]map[string]gField // struct -> field -> what it holds
	parents   map[int]KS
}

func (g *grammar) show(s KS) string {
	var r []string
	s.each(func(i int) {
		switch i {
		case ksNil:
			r = append(r, "nil")
		case ksMaybe:
		case ksOther:
			r = append(r, "value")
		default:
			r = append(r, g.kindName[i])
		}
	})
	if len(r) > 6 {
		return fmt.Sprintf("%s, … (%d kinds)", strings.Join(r[:5], ", "), len(r))
	}
	return strings.Join(r, ", ")
}

type jField struct {
	Name     string
	Type     any
	List     string
	Optional bool
	GoOnly   bool `json:"goOnly"`
	NoGo     bool `json:"noGo"`
	Inh      bool `json:"inherited"`
}

// loadGrammar reads the grammar of the engine's tree; problems are returned as text.
func loadGrammar(w *World) (*grammar, []string) {
	g := &grammar{kindName: map[int]string{}, structs: map[string]KS{}, structsOf: map[int][]string{}, bases: map[string]KS{}, fields: map[string]map[string]gField{}, parents: map[int]KS{}}
	var probs []string
	p := w.L.Pkgs[pAst]
	if p == nil || len(p.Files) == 0 {
		return nil, []string{"the engine's ast package is not loaded"}
	}
	file := ""
	for _, f := range p.Files {
		if n := w.L.Fset.Position(f.Pos()).Filename; strings.Contains(n, "internal/ast/") {
			file = filepath.Join(filepath.Dir(n), "..", "..", "_scripts", "ast.json")
			if _, err := os.Stat(file); err == nil {
				break
			}
		}
	}
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, []string{"the grammar of the engine's tree is not there: " + err.Error()}
	}
	var doc struct {
		Kinds struct {
			Elements []any
			Aliases  map[string]any
		}
		Bases map[string]struct {
			Fields  map[string]jField
			Extends []string
		}
		Nodes struct {
			Definitions map[string]struct {
				Kind    any
				Extends []string
				Members []jField
				Inst    map[string]any `json:"instantiationAliases"`
			}
			Aliases     map[string]any
			ListAliases map[string]string
		}
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		return nil, []string{err.Error()}
	}
	kinds := map[string]int{}
	marker := map[string]bool{}
	for n, v := range w.kindValues() {
		if v < ksKinds {
			kinds[strings.TrimPrefix(n, "Kind")] = int(v)
		}
	}
	for _, e := range doc.Kinds.Elements {
		if s, ok := e.(string); ok {
			if v, ok := kinds[s]; ok {
				g.kindName[v] = s
				g.all.add(v)
				marker[s] = true
			}
		}
	}
	var extends func(d string, base string, seen map[string]bool) bool
	extends = func(d, base string, seen map[string]bool) bool {
		if d == base {
			return true
		}
		if seen[d] {
			return false
		}
		seen[d] = true
		if x, ok := doc.Nodes.Definitions[d]; ok {
			for _, e := range x.Extends {
				if extends(e, base, seen) {
					return true
				}
			}
		}
		if x, ok := doc.Bases[d]; ok {
			for _, e := range x.Extends {
				if extends(e, base, seen) {
					return true
				}
			}
		}
		return false
	}
	list := func(x any) (r []string) {
		switch v := x.(type) {
		case string:
			return []string{v}
		case []any:
			for _, e := range v {
				if s, ok := e.(string); ok {
					r = append(r, s)
				}
			}
		case map[string]any:
			if b, ok := v["base"].(string); ok {
				return []string{"base:" + b}
			}
		}
		return
	}
	unknown := map[string]bool{}
	var resolve func(n string, seen map[string]bool) KS
	defKinds := func(n string, seen map[string]bool) (s KS) {
		d := doc.Nodes.Definitions[n]
		if ks := list(d.Kind); len(ks) > 0 {
			for _, k := range ks {
				s = s.or(resolve("SyntaxKind."+k, seen))
			}
			return s
		}
		for _, m := range d.Members {
			if m.Name == "Kind" {
				for _, t := range list(m.Type) {
					if t == "TKind" {
						for a, v := range d.Inst {
							_ = a
							for _, k := range list(v) {
								s = s.or(resolve("SyntaxKind."+k, seen))
							}
						}
						continue
					}
					s = s.or(resolve(t, seen))
				}
				return s
			}
		}
		return resolve("SyntaxKind."+n, seen)
	}
	resolve = func(n string, seen map[string]bool) (s KS) {
		if seen[n] {
			return
		}
		sn := map[string]bool{n: true}
		for k := range seen {
			sn[k] = true
		}
		if k, ok := strings.CutPrefix(n, "SyntaxKind."); ok {
			if v, ok := kinds[k]; ok {
				return ksOf(v)
			}
			if a, ok := doc.Kinds.Aliases[k]; ok {
				for _, x := range list(a) {
					s = s.or(resolve("SyntaxKind."+x, sn))
				}
				return s
			}
			unknown[n] = true
			return
		}
		if b, ok := strings.CutPrefix(n, "base:"); ok {
			for d := range doc.Nodes.Definitions {
				if extends(d, b, map[string]bool{}) {
					s = s.or(resolve(d, sn))
				}
			}
			return
		}
		if _, ok := doc.Nodes.Definitions[n]; ok {
			s = defKinds(n, sn)
			switch n {
			case "Token":
				s = s.or(g.all.and(tokenKinds(kinds)))
			case "KeywordTypeNode":
				s = s.or(resolve("SyntaxKind.KeywordTypeSyntaxKind", sn))
			case "KeywordExpression":
				s = s.or(ksOf(kinds["NullKeyword"], kinds["TrueKeyword"], kinds["FalseKeyword"], kinds["ThisKeyword"], kinds["SuperKeyword"], kinds["ImportKeyword"]))
			}
			return s
		}
		for _, d := range doc.Nodes.Definitions {
			if v, ok := d.Inst[n]; ok {
				for _, k := range list(v) {
					s = s.or(resolve("SyntaxKind."+k, sn))
				}
				return s
			}
		}
		if a, ok := doc.Nodes.Aliases[n]; ok {
			for _, x := range list(a) {
				s = s.or(resolve(x, sn))
			}
			return s
		}
		if a, ok := doc.Nodes.ListAliases[n]; ok {
			return resolve(a, sn)
		}
		if a, ok := doc.Kinds.Aliases[n]; ok {
			for _, x := range list(a) {
				s = s.or(resolve("SyntaxKind."+x, sn))
			}
			return s
		}
		if _, ok := doc.Bases[n]; ok {
			return resolve("base:"+n, sn)
		}
		if n == "JsxTagNamePropertyAccess" {
			return resolve("PropertyAccessExpression", sn)
		}
		if n == "Node" {
			return g.all
		}
		if v, ok := kinds[n]; ok {
			return ksOf(v)
		}
		unknown[n] = true
		return
	}
	var made KS
	for _, k := range madeKinds {
		made.add(kinds[k])
	}
	var names []string
	for n := range doc.Nodes.Definitions {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := resolve(n, map[string]bool{}).minus(made)
		g.structs[n] = s
		s.each(func(k int) { g.structsOf[k] = append(g.structsOf[k], n) })
		g.nodes = g.nodes.or(s)
	}
	g.nodes.del(ksLost)
	for n := range doc.Bases {
		g.bases[n] = resolve("base:"+n, map[string]bool{})
	}
	var baseFields func(n string, into map[string]jField, seen map[string]bool)
	baseFields = func(n string, into map[string]jField, seen map[string]bool) {
		if seen[n] {
			return
		}
		seen[n] = true
		b := doc.Bases[n]
		for _, e := range b.Extends {
			baseFields(e, into, seen)
		}
		for fn, f := range b.Fields {
			f.Name = fn
			if old, ok := into[fn]; ok && f.NoGo {
				old.Type = f.Type
				into[fn] = old
				continue
			}
			into[fn] = f
		}
	}
	for _, n := range names {
		d := doc.Nodes.Definitions[n]
		all := map[string]jField{}
		for _, e := range d.Extends {
			baseFields(e, all, map[string]bool{})
		}
		for _, m := range d.Members {
			if m.Type == nil {
				if _, ok := all[m.Name]; ok {
					continue
				}
			}
			if old, ok := all[m.Name]; ok && m.Inh {
				m.Optional = m.Optional || old.Optional
				if m.List == "" {
					m.List = old.List
				}
			}
			all[m.Name] = m
		}
		fs := map[string]gField{}
		for fn, f := range all {
			if f.GoOnly || f.Type == nil || fn == "Kind" {
				continue
			}
			var s KS
			isNode := true
			for _, t := range list(f.Type) {
				switch {
				case strings.HasPrefix(t, "*") || strings.HasPrefix(t, "[]") || t == "string" || t == "bool" || strings.HasSuffix(t, "Flags") || t == "int" || strings.HasPrefix(t, "SyntaxKind.") || strings.Contains(t, "Operator") && !strings.HasSuffix(t, "Token"):
					isNode = false
				default:
					s = s.or(resolve(t, map[string]bool{}))
				}
			}
			if f.List == "raw" {
				isNode = false
			}
			if ks, ok := anyNode[n+"."+fn]; ok {
				s = KS{}
				for _, k := range ks {
					s.add(kinds[k])
				}
			}
			if n != "JsxElement" && n != "JsxFragment" {
				s.del(kinds["JsxText"])
			}
			s = s.minus(made)
			s.del(ksLost)
			if n+"."+fn == "ArrowFunction.Body" {
				f.Optional = false
			}
			// The engine's generator does not mark these, although its parser leaves them out.
			switch n + "." + fn {
			case "PropertyAssignment.Type", "ShorthandPropertyAssignment.Type":
				f.Optional = true
			}
			fs[strings.ToLower(fn[:1])+fn[1:]] = gField{Kinds: s, List: f.List != "", Optional: f.Optional, Node: isNode && !s.empty()}
			if isNode && !s.empty() {
				own := g.structs[n]
				s.each(func(k int) { g.parents[k] = g.parents[k].or(own) })
			}
		}
		g.fields[n] = fs
	}
	delete(unknown, "any")
	for n := range unknown {
		probs = append(probs, n)
	}
	sort.Strings(probs)
	return g, probs
}

// madeKinds: nodes that no parser makes.
var madeKinds = []string{"SyntheticExpression", "NotEmittedStatement", "NotEmittedTypeElement", "PartiallyEmittedExpression", "SyntheticReferenceExpression", "SyntaxList"}

// anyNode: what fields hold for which the grammar allows any node.
var anyNode = map[string][]string{
	"LiteralTypeNode.Literal":        {"NullKeyword", "TrueKeyword", "FalseKeyword", "StringLiteral", "NumericLiteral", "BigIntLiteral", "NoSubstitutionTemplateLiteral", "PrefixUnaryExpression"},
	"JSDocTypeTag.TypeExpression":    {"JSDocTypeExpression"},
	"JSDocTypedefTag.TypeExpression": {"JSDocTypeExpression", "JSDocTypeLiteral"},
	"JSDocTemplateTag.Constraint":    {"JSDocTypeExpression"},
}

func tokenKinds(kinds map[string]int) (s KS) {
	for n, v := range kinds {
		if strings.HasSuffix(n, "Token") || strings.HasSuffix(n, "Keyword") || n == "EndOfFile" {
			s.add(v)
		}
	}
	return
}

// nodeStruct: the kinds a pointer to this type of the engine's tree can have.
func (g *grammar) nodeStruct(t types.Type) (KS, bool) {
	if t == nil {
		return KS{}, false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return KS{}, false
	}
	n := namedOf(pt.Elem())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pAst {
		return KS{}, false
	}
	if n.Obj().Name() == "Node" {
		return g.nodes.or(ksOf(ksLost)), true
	}
	if s, ok := g.structs[n.Obj().Name()]; ok {
		return s, true
	}
	s, ok := g.bases[n.Obj().Name()]
	return s, ok && !s.empty()
}

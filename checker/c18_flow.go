package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"iter"
	"maps"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Forward flow of kinds and of nil, through branches and calls. Every function is looked
// at once for each set of facts its callers know about what they pass (contexts), and
// answers with what is known when it returns, apart for each outcome (true, false, nil,
// not nil). A key names a part of a tree: "the Expression of what node is".
// ---------------------------------------------------------------------------

type kKey struct {
	id   int
	up   *kKey
	op   string
	v    ssa.Value // of a root
	res  int       // of a root: component of a tuple
	root *kKey
	typ  types.Type
	dep  int
	more bool // an operation on more than the key above
}

func (k *kKey) String() string {
	if k == nil {
		return "?"
	}
	if k.up == nil {
		if k.v == nil {
			return fmt.Sprintf("result%d", k.res)
		}
		n := k.v.Name()
		if pr, ok := k.v.(*ssa.Parameter); ok {
			n = pr.Name()
		} else if al, ok := k.v.(*ssa.Alloc); ok && al.Comment != "" {
			n = al.Comment
		} else if ph, ok := k.v.(*ssa.Phi); ok && ph.Comment != "" {
			n = ph.Comment
		}
		return n
	}
	return k.up.String() + k.op
}

// kEnv is a set of facts, in the order of the keys. Copies share them until one changes.
type kEnv struct {
	fs     []kFact
	shared bool
	eq     map[[2]*kKey]bool // nodes of the same kind
}

type kFact struct {
	k *kKey
	s KS
}

func newKEnv() *kEnv { return &kEnv{} }

func envOf(k *kKey, s KS) *kEnv { return &kEnv{fs: []kFact{{k, s}}} }

func (e *kEnv) find(k *kKey) (int, bool) {
	lo, hi := 0, len(e.fs)
	for lo < hi {
		m := (lo + hi) / 2
		if e.fs[m].k.id < k.id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo, lo < len(e.fs) && e.fs[lo].k == k
}

func (e *kEnv) get(k *kKey) (KS, bool) {
	if i, ok := e.find(k); ok {
		return e.fs[i].s, true
	}
	return KS{}, false
}

func (e *kEnv) at(k *kKey) KS { s, _ := e.get(k); return s }

func (e *kEnv) own() {
	if e.shared {
		fs := make([]kFact, len(e.fs), len(e.fs)+4)
		copy(fs, e.fs)
		e.fs, e.shared = fs, false
	}
}

func (e *kEnv) set(k *kKey, s KS) {
	i, ok := e.find(k)
	if ok {
		if e.fs[i].s != s {
			e.own()
			e.fs[i].s = s
		}
		return
	}
	e.own()
	e.fs = append(e.fs, kFact{})
	copy(e.fs[i+1:], e.fs[i:])
	e.fs[i] = kFact{k, s}
}

func (e *kEnv) del(k *kKey) {
	if i, ok := e.find(k); ok {
		e.own()
		e.fs = append(e.fs[:i], e.fs[i+1:]...)
	}
}

// all goes through the facts as they are now, whatever changes meanwhile.
func (e *kEnv) all() iter.Seq2[*kKey, KS] {
	e.shared = true
	fs := e.fs
	return func(yield func(*kKey, KS) bool) {
		for i := range fs {
			if !yield(fs[i].k, fs[i].s) {
				return
			}
		}
	}
}

func (e *kEnv) keys() []*kKey {
	r := make([]*kKey, len(e.fs))
	for i := range e.fs {
		r[i] = e.fs[i].k
	}
	return r
}

func (e *kEnv) clone() *kEnv {
	e.shared = true
	r := &kEnv{fs: e.fs, shared: true}
	if len(e.eq) > 0 {
		r.eq = maps.Clone(e.eq)
	}
	return r
}

// alike notes that two nodes have the same kind.
func (e *kEnv) alike(x, y *kKey) {
	if x == y {
		return
	}
	if x.id > y.id {
		x, y = y, x
	}
	if e.eq == nil {
		e.eq = map[[2]*kKey]bool{}
	}
	e.eq[[2]*kKey{x, y}] = true
}

// pairs: the nodes of the same kind, in order.
func (e *kEnv) pairs() [][2]*kKey {
	if len(e.eq) == 0 {
		return nil
	}
	r := make([][2]*kKey, 0, len(e.eq))
	for p := range e.eq {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool {
		return r[i][0].id < r[j][0].id || r[i][0] == r[j][0] && r[i][1].id < r[j][1].id
	})
	return r
}

// drop forgets what is known about some keys.
func (e *kEnv) drop(f func(k *kKey) bool) {
	for i := range e.fs {
		if f(e.fs[i].k) {
			fs := append(make([]kFact, 0, len(e.fs)), e.fs[:i]...)
			for _, x := range e.fs[i+1:] {
				if !f(x.k) {
					fs = append(fs, x)
				}
			}
			e.fs, e.shared = fs, false
			break
		}
	}
	for p := range e.eq {
		if f(p[0]) || f(p[1]) {
			delete(e.eq, p)
		}
	}
}

func (e *kEnv) same(o *kEnv) bool {
	return slices.Equal(e.fs, o.fs) && maps.Equal(e.eq, o.eq)
}

// kCase is one way in which a function returns.
type kCase struct {
	class string
	env   *kEnv // facts about the parameters, outer variables and results
	keys  []*kKey
}

type kSum struct {
	open  bool // what it says depends on an outer call that is not done
	cases []*kCase
	bad   []string // why it panics
	busy  bool
	asked bool // while being looked at
	round int
}

type kObl struct {
	fn    *ssa.Function
	rule  string
	what  string
	pos   token.Pos
	bad   string
	times int
}

type kFrame struct {
	fn    *ssa.Function
	fns   map[ssa.Value][]*ssa.Function
	in    map[*ssa.BasicBlock]*kEnv
	edge  map[[2]*ssa.BasicBlock]*kEnv
	calls map[*ssa.Call]*kCalled
	cases map[string]*kCase
	open  bool // built on the answer of a call that is still being looked at
	bad   []string
	up    *kFrame
	sum   *kSum
	quiet bool
}

// kCalled is what is known about a call that was made.
type kCalled struct {
	cases []*kCase // in the keys of the caller
}

type kAn struct {
	w        *World
	g        *grammar
	back     *Back
	roots    map[ssa.Value]map[int]*kKey
	kids     map[*kKey]map[string]*kKey
	results  []*kKey
	nkeys    int
	sums     map[string]*kSum
	alias    map[*ssa.Call]*kKey
	noAlias  map[*ssa.Call]bool
	cells    map[*kKey]*kEnv // what variables of several stores can hold, below a result key
	fields   map[string]*kEnv
	closure  map[*ssa.Function]*kEnv
	cellsN   map[*kKey]*kEnv // the same, as this round finds it
	fieldsN  map[string]*kEnv
	closN    map[*ssa.Function]*kEnv
	round    int
	obls     map[ssa.Instruction]map[string]*kObl
	reached  map[*ssa.Function]bool
	pending  map[string]kRoot
	once     map[*ssa.Alloc]*ssa.Store
	onceD    map[*ssa.Alloc]bool
	nilRet   map[*ssa.Function][]bool
	must     map[*ssa.Function][]bool
	nilIn    map[*ssa.Parameter]kIfNil
	ctxs     map[*ssa.Function]int
	evals    int
	depth    int
	pures    map[*ssa.Function]bool
	implying int
	callTop  map[*kKey]KS // what calls that are not looked into can answer with
	fnIDs    map[*ssa.Function]uint32
	setIDs   map[KS]uint32
	parOf    map[KS]KS
	partOf   map[partKey]partVal
	only     map[*ssa.Call]*ssa.Function
	pkg      string // of the function that is being looked at
	storesD  map[*ssa.Alloc][]*ssa.Store
}

type kRoot struct {
	fn *ssa.Function
	in *kEnv
}

func newKAn(w *World, g *grammar) *kAn {
	a := &kAn{w: w, g: g, back: newBack(w), roots: map[ssa.Value]map[int]*kKey{}, kids: map[*kKey]map[string]*kKey{},
		alias: map[*ssa.Call]*kKey{}, noAlias: map[*ssa.Call]bool{}, pures: map[*ssa.Function]bool{}, callTop: map[*kKey]KS{}, fnIDs: map[*ssa.Function]uint32{}, setIDs: map[KS]uint32{}, parOf: map[KS]KS{}, partOf: map[partKey]partVal{}, only: map[*ssa.Call]*ssa.Function{}, cells: map[*kKey]*kEnv{}, fields: map[string]*kEnv{}, closure: map[*ssa.Function]*kEnv{},
		obls: map[ssa.Instruction]map[string]*kObl{}, once: map[*ssa.Alloc]*ssa.Store{}, onceD: map[*ssa.Alloc]bool{}, nilRet: map[*ssa.Function][]bool{}, must: map[*ssa.Function][]bool{}, nilIn: map[*ssa.Parameter]kIfNil{}, storesD: map[*ssa.Alloc][]*ssa.Store{}}
	for i := 0; i < 6; i++ {
		a.nkeys++
		k := &kKey{id: a.nkeys, res: i}
		k.root = k
		a.results = append(a.results, k)
	}
	return a
}

func (a *kAn) rootKey(v ssa.Value, i int, t types.Type) *kKey {
	m := a.roots[v]
	if m == nil {
		m = map[int]*kKey{}
		a.roots[v] = m
	}
	if k := m[i]; k != nil {
		return k
	}
	a.nkeys++
	k := &kKey{id: a.nkeys, v: v, res: i, typ: t}
	k.root = k
	m[i] = k
	return k
}

func (a *kAn) child(k *kKey, op string, t types.Type) *kKey {
	if k.op == op && strings.HasPrefix(op, ".Skip") {
		return k // skipping twice is skipping once
	}
	m := a.kids[k]
	if m == nil {
		m = map[string]*kKey{}
		a.kids[k] = m
	}
	if c := m[op]; c != nil {
		return c
	}
	a.nkeys++
	c := &kKey{id: a.nkeys, up: k, op: op, root: k.root, typ: t, dep: k.dep + 1, more: k.more || strings.Contains(op, ";")}
	m[op] = c
	return c
}

// rebase names under "to" what k names under "from"; nil if k is not below it.
func (a *kAn) rebase(k, from, to *kKey) *kKey {
	if k == from {
		return to
	}
	if k.up == nil || k.dep <= from.dep {
		return nil
	}
	u := a.rebase(k.up, from, to)
	if u == nil || u.dep > 6 {
		return nil
	}
	if k.op == ".Parent" {
		return a.parentOf(u, k.typ)
	}
	return a.child(u, k.op, k.typ)
}

func isKindT(t types.Type) bool { return t != nil && isNamed(t, pAst, "Kind") }

func isAstT(t types.Type) bool {
	if t == nil {
		return false
	}
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pAst
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// top: everything a value of the type can be, nil apart.
func (a *kAn) top(t types.Type) KS {
	if t == nil {
		return KS{}
	}
	if isKindT(t) {
		return a.g.all
	}
	if s, ok := a.g.nodeStruct(t); ok {
		s.add(ksMaybe)
		return s
	}
	if nilable(t) {
		return ksUnknown
	}
	if isTruthT(t) {
		return ksTrue.or(ksFalse)
	}
	return KS{}
}

// What is known of a truth value, in the same bits.
var ksTrue, ksFalse = ksJustOther, ksJustNil

func isTruthT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// valueOf: the value that a key without operations names.
func valueOf(k *kKey) ssa.Value {
	if k.op != "" || k.v == nil {
		return nil
	}
	if k.res == 0 {
		return k.v
	}
	if rs := k.v.Referrers(); rs != nil {
		for _, r := range *rs {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == k.res-1 {
				return ex
			}
		}
	}
	return nil
}

func (a *kAn) tracked(t types.Type) bool { return isKindT(t) || nilable(t) }

// ---- keys ------------------------------------------------------------------

func (a *kAn) storesOf(al *ssa.Alloc) []*ssa.Store {
	if s, ok := a.storesD[al]; ok {
		return s
	}
	s := a.back.cellStores(al, map[ssa.Value]bool{})
	a.storesD[al] = s
	return s
}

// single: the only store to a variable, if it comes before every use.
func (a *kAn) single(al *ssa.Alloc) *ssa.Store {
	if a.onceD[al] {
		return a.once[al]
	}
	a.onceD[al] = true
	st := a.storesOf(al)
	if len(st) != 1 || st[0].Addr != ssa.Value(al) || st[0].Parent() != al.Parent() {
		return nil
	}
	for _, u := range *al.Referrers() {
		if u == ssa.Instruction(st[0]) {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if !st[0].Block().Dominates(u.Block()) {
			return nil
		}
		if st[0].Block() == u.Block() {
			for _, in := range u.Block().Instrs {
				if in == u {
					return nil
				}
				if in == ssa.Instruction(st[0]) {
					break
				}
			}
		}
	}
	a.once[al] = st[0]
	return st[0]
}

func fieldName(t types.Type, i int) (string, *types.Var) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?", nil
	}
	return st.Field(i).Name(), st.Field(i)
}

func lower(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func (a *kAn) fieldKeyOf(x ssa.Value, i int) *kKey {
	up := a.key(x)
	if up == nil {
		return nil
	}
	n, f := fieldName(x.Type(), i)
	if f == nil || up.dep > 7 {
		return nil
	}
	if isAstT(x.Type()) {
		if f.Embedded() || n == "data" {
			return up
		}
		if n == "Parent" {
			return a.parentOf(up, f.Type())
		}
		if n == "Kind" {
			return a.child(up, ".Kind", f.Type())
		}
		return a.child(up, "."+lower(n), f.Type())
	}
	return a.child(up, "."+n, f.Type())
}

// parentOf: the node above; of a child reached through a field, the node it was reached from.
func (a *kAn) parentOf(k *kKey, t types.Type) *kKey {
	if k.up != nil && !k.more {
		switch {
		case k.op == "[]" || strings.HasPrefix(k.op, "[") && k.op != "[*]":
			l := k.up
			if l.op == ".nodes" && l.up != nil && l.up.up != nil && isAstT(l.up.up.typ) {
				return l.up.up
			}
		case strings.HasPrefix(k.op, ".") && k.op != ".Parent" && k.op != ".Kind" && k.op != ".nodes" && isAstT(k.up.typ):
			if _, ok := a.g.nodeStruct(k.up.typ); ok {
				return k.up
			}
		}
	}
	if k.dep > 6 {
		return nil
	}
	return a.child(k, ".Parent", t)
}

func (a *kAn) key(v ssa.Value) *kKey { return a.keyD(v, 0) }

func (a *kAn) keyD(v ssa.Value, d int) *kKey {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.ChangeType:
		return a.keyD(x.X, d+1)
	case *ssa.ChangeInterface:
		return a.keyD(x.X, d+1)
	case *ssa.MakeInterface:
		return a.keyD(x.X, d+1)
	case *ssa.Convert:
		if isKindT(x.Type()) && isKindT(x.X.Type()) {
			return a.keyD(x.X, d+1)
		}
		if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
			return a.keyD(x.X, d+1) // the same object seen as another type
		}
	case *ssa.FieldAddr:
		return a.fieldKeyOf(x.X, x.Field)
	case *ssa.Field:
		return a.fieldKeyOf(x.X, x.Field)
	case *ssa.FreeVar:
		if al := a.cellOf(x); al != nil {
			return a.keyD(al, d+1)
		}
	case *ssa.Alloc:
		if st := a.single(al(x)); st != nil {
			if _, isStruct := deref(x.Type()).Underlying().(*types.Struct); !isStruct {
				if k := a.keyD(st.Val, d+1); k != nil {
					return k
				}
			}
		}
		return a.rootKey(x, 0, deref(x.Type()))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.FieldAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
				if k := a.keyD(y, d+1); k != nil {
					return k
				}
			case *ssa.IndexAddr:
				if k := a.keyD(y, d+1); k != nil {
					return k
				}
			default:
				// *p of a struct
				if k := a.keyD(x.X, d+1); k != nil {
					if _, ok := x.Type().Underlying().(*types.Struct); ok {
						return k
					}
				}
			}
		}
	case *ssa.IndexAddr:
		if c, ok := constInt(x.Index); ok {
			if k := a.keyD(x.X, d+1); k != nil && k.dep < 7 {
				return a.child(k, fmt.Sprintf("[%d]", c), deref(x.Type()))
			}
		}
		return nil
	case *ssa.Call:
		if k, ok := a.alias[x]; ok && !a.noAlias[x] {
			return k
		}
		if k := a.callKey(x, d); k != nil {
			return k
		}
	case *ssa.Extract:
		return a.rootKey(x.Tuple, x.Index+1, x.Type())
	case *ssa.Global:
		return a.rootKey(x, 0, deref(x.Type()))
	}
	return a.rootKey(v, 0, v.Type())
}

func al(x *ssa.Alloc) *ssa.Alloc { return x }

// cellOf: the variable a closure's free variable stands for.
func (a *kAn) cellOf(fv *ssa.FreeVar) *ssa.Alloc {
	var r *ssa.Alloc
	for _, b := range a.back.rec.bindings(fv) {
		var c *ssa.Alloc
		switch y := b.(type) {
		case *ssa.Alloc:
			c = y
		case *ssa.FreeVar:
			c = a.cellOf(y)
		}
		if c == nil || r != nil && r != c {
			return nil
		}
		r = c
	}
	return r
}

// callKey: calls that give the same answer for the same question.
func (a *kAn) callKey(x *ssa.Call, d int) *kKey {
	f := a.w.real(x.Call.StaticCallee())
	if f == nil && !x.Call.IsInvoke() && len(x.Call.Args) > 0 && a.onlyNode(x.Call.Signature().Params()) {
		g, ok := a.only[x]
		if !ok {
			if fs := a.targets(nil, x.Call.Value); len(fs) == 1 {
				g = fs[0]
			}
			a.only[x] = g
		}
		f = g
	}
	if f == nil || len(x.Call.Args) == 0 || f.Signature.Results().Len() != 1 || !a.tracked(x.Type()) {
		return nil
	}
	if s, rest, ok := a.asStruct(f); ok {
		_ = s
		_ = rest
		return a.keyD(x.Call.Args[0], d+1)
	}
	pp := fnPkgPath(f)
	if isRepoPath(pp) {
		if !a.pure(f, 0) {
			return nil
		}
	} else if !isTsgoPath(pp) || !strings.HasSuffix(pp, "/ast") && !strings.HasSuffix(pp, "/checker") {
		return nil
	}
	var on *kKey
	op := "." + f.Name() + "("
	for i, arg := range x.Call.Args {
		if c, ok := arg.(*ssa.Const); ok {
			op += "," + c.String()
			continue
		}
		k := a.keyD(arg, d+1)
		if k == nil {
			return nil
		}
		if i == 0 && strings.HasSuffix(pp, "/checker") && isNamed(deref(arg.Type()), tsgoPath+"/internal/checker", "Checker") {
			continue
		}
		if on == nil {
			on = k
		} else {
			op += fmt.Sprintf(";%d", k.id)
		}
	}
	if on == nil || on.dep > 6 {
		return nil
	}
	return a.child(on, op+")", x.Type())
}

// pure: the answer depends on nothing but nodes that are passed, and nothing changes.
func (a *kAn) pure(f *ssa.Function, d int) bool {
	if r, ok := a.pures[f]; ok {
		return r
	}
	a.pures[f] = false
	if d > 4 || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || f.Parent() != nil && f.Signature.Recv() != nil {
		return false
	}
	if !a.onlyNode(f.Signature.Results()) || !a.onlyNode(f.Signature.Params()) || f.Signature.Recv() != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.Select:
				return false
			case *ssa.Call:
				g := a.w.real(x.Call.StaticCallee())
				if g == nil {
					return false
				}
				if isRepoPath(fnPkgPath(g)) {
					if !a.pure(g, d+1) {
						return false
					}
				} else if fnPkgPath(g) != pAst {
					return false
				}
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Global); ok {
					return false
				}
			}
		}
	}
	a.pures[f] = true
	return true
}

func (a *kAn) onlyNode(t *types.Tuple) bool {
	for i := 0; i < t.Len(); i++ {
		if _, ok := a.g.nodeStruct(t.At(i).Type()); !ok && !isKindT(t.At(i).Type()) {
			return false
		}
	}
	return true
}

// asStruct: AsX of a node; the kinds that have X's struct.
func (a *kAn) asStruct(f *ssa.Function) (KS, string, bool) {
	if f.Name() == "AsNode" && f.Signature.Recv() != nil && isNamed(deref(f.Signature.Recv().Type()), pAst, "NodeDefault") {
		return a.g.all, "Node", true
	}
	if f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "As") || fnPkgPath(f) != pAst || !isNamed(deref(f.Signature.Recv().Type()), pAst, "Node") {
		return KS{}, "", false
	}
	n := strings.TrimPrefix(f.Name(), "As")
	if n == "Node" {
		return a.g.all, n, true
	}
	rt := namedOf(deref(f.Signature.Results().At(0).Type()))
	if rt == nil {
		return KS{}, "", false
	}
	s, ok := a.g.structs[rt.Obj().Name()]
	return s, rt.Obj().Name(), ok
}

// ---- facts -----------------------------------------------------------------

func (a *kAn) lookup(e *kEnv, k *kKey) KS {
	if k == nil {
		return KS{}
	}
	if k.op == ".Kind" {
		return a.lookup(e, k.up).and(a.g.all)
	}
	s, ok := e.get(k)
	if k.up == nil {
		if ok {
			return s
		}
		return a.rootFacts(k)
	}
	st := a.structural(e, k)
	if ok {
		return s.within2(st)
	}
	return st
}

// within2: what is in both; being missing and maybe being missing go together.
func (s KS) within2(o KS) KS {
	t := s.and(o)
	if s.has(ksNil) && o.has(ksMaybe) {
		t.add(ksNil)
	}
	if s.has(ksMaybe) && o.has(ksNil) {
		t.add(ksMaybe)
	}
	return t
}

func (a *kAn) rootFacts(k *kKey) KS {
	switch x := k.v.(type) {
	case *ssa.Alloc:
		if f := a.cells[k]; f != nil {
			if s, ok := f.get(a.results[0]); ok {
				return s
			}
		}
		if _, ok := k.typ.Underlying().(*types.Pointer); ok && len(a.storesOf(x)) == 0 {
			return ksJustNil
		}
	}
	return a.top(k.typ)
}

func (a *kAn) structural(e *kEnv, k *kKey) KS {
	up := k.up
	switch {
	case k.op == ".Parent":
		return a.parentsOf(a.lookup(e, up))
	case k.op == ".nodes":
		return ksJustOther
	case strings.HasPrefix(k.op, "["):
		return soften(a.elemFacts(e, up, k.typ))
	case strings.HasPrefix(k.op, ".") && !strings.Contains(k.op, "("):
		if _, ok := a.g.nodeStruct(up.typ); ok {
			return a.childFacts(e, up, k.op[1:], k.typ)
		}
		s := a.top(k.typ)
		if up.typ == nil {
			return s
		}
		if nullableField(up.typ, k.op[1:]) {
			s = s.or(ksJustNil)
		}
		if k.op == ".valueDeclaration" && a.ofSignature(up) {
			s = a.g.structs["ParameterDeclaration"].or(ksJustNil)
		}
		if n := namedOf(deref(up.typ)); n != nil && !isTsgoPath(typePkg(up.typ)) {
			if f := a.fields[n.Obj().Pkg().Path()+"."+n.Obj().Name()+k.op]; f != nil {
				if t, ok := f.get(a.results[0]); ok {
					if nilable(k.typ) {
						t.add(ksMaybe) // before anything is stored
					}
					return t
				}
			}
		}
		return s
	}
	if t, ok := a.callTop[k]; ok {
		return t
	}
	return a.top(k.typ)
}

// parentsOf: the kinds of the parents of nodes of some kinds.
func (a *kAn) parentsOf(ps KS) KS {
	if s, ok := a.parOf[ps]; ok {
		return s
	}
	var s KS
	any := false
	ps.each(func(i int) {
		if i >= ksKinds {
			return
		}
		if i == ksLost {
			any = true
			return
		}
		p, ok := a.g.parents[i]
		if !ok || p.empty() {
			any = true
		}
		s = s.or(p)
		if a.g.kindName[i] == "SourceFile" {
			if ps.minus(ksEither).size() == 1 {
				s.add(ksNil)
			} else {
				s.add(ksMaybe)
			}
		}
	})
	if any {
		s = s.or(a.g.nodes)
	}
	if ps.has(ksLost) {
		s.add(ksLost)
	}
	a.parOf[ps] = s
	return s
}

type partKey struct {
	of KS
	f  string
}

type partVal struct {
	s     KS
	known bool
}

// partsOf: the kinds a field has in nodes of some kinds.
func (a *kAn) partsOf(ps KS, f string) (KS, bool) {
	pk := partKey{ps, f}
	if v, ok := a.partOf[pk]; ok {
		return v.s, v.known
	}
	var s KS
	known := false
	ps.each(func(i int) {
		if i >= ksKinds {
			return
		}
		for _, sn := range a.g.structsOf[i] {
			if fd, ok := a.g.fields[sn][f]; ok && fd.Node {
				known = true
				if fd.List {
					s = s.or(ksJustOther)
				} else {
					s = s.or(fd.Kinds)
				}
				if fd.Optional || sn == "CaseOrDefaultClause" && f == "expression" && a.g.kindName[i] == "DefaultClause" {
					s = s.or(ksJustNil)
				}
			}
		}
	})
	a.partOf[pk] = partVal{s, known}
	return s, known
}

// ofSignature: an element of the list of the parameters of a signature.
func (a *kAn) ofSignature(k *kKey) bool {
	l := k.up
	if l == nil {
		// an element met in a loop
		ld, ok := k.v.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		if l = a.key(ia.X); l == nil {
			return false
		}
	} else if !strings.HasPrefix(k.op, "[") {
		return false
	}
	n := l.op
	if c, ok := l.v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			n = f.Name()
		}
	}
	return strings.Contains(n, "Signature_parameters") || l.up != nil && l.up.typ != nil && isNamed(deref(l.up.typ), tsgoPath+"/internal/checker", "Signature") && strings.Contains(strings.ToLower(n), "parameters") && !strings.Contains(strings.ToLower(n), "type")
}

func nodePtr(w *World) types.Type {
	if n := w.namedType(pAst, "Node"); n != nil {
		return types.NewPointer(n)
	}
	return nil
}

// nullableField: fields of the engine's data that are nil for some values.
func nullableField(t types.Type, f string) bool {
	n := namedOf(deref(t))
	if n == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Name(), "extra_") + "." + f {
	case "Symbol.valueDeclaration", "Type.symbol", "Signature.declaration", "Type.alias":
		return strings.HasPrefix(typePkg(t), tsgoPath+"/")
	}
	return false
}

func (a *kAn) childFacts(e *kEnv, up *kKey, f string, t types.Type) KS {
	ps := a.lookup(e, up)
	s, known := a.partsOf(ps, f)
	if !known {
		return a.top(t)
	}
	if s.has(ksNil) && (f == "name" && ps.minus(ksEither).within(a.g.structs["BindingElement"]) && a.inObjectPattern(e, up) ||
		f == "expression" && a.pkg == modPath+"/internal/rules/no_confusing_void_expression" && ps.minus(ksEither).within(a.g.structs["ReturnStatement"])) {
		s.del(ksNil)
		s.add(ksMaybe)
	}
	if ps.has(ksLost) {
		s.add(ksLost)
		if s.has(ksNil) {
			s.del(ksNil)
			s.add(ksMaybe)
		}
	}
	if ns, ok := a.g.nodeStruct(t); ok {
		s = s.and(ns.or(ksJustNil))
		s.add(ksMaybe)
	}
	return s
}

// inObjectPattern: a binding element that stands in an object pattern; only array patterns
// have elements without a name.
func (a *kAn) inObjectPattern(e *kEnv, up *kKey) bool {
	pk := a.parentOf(up, nil)
	if pk == nil || pk.typ == nil {
		return false
	}
	ps := a.lookup(e, pk).and(a.g.nodes)
	only := !ps.empty()
	ps.each(func(i int) { only = only && a.g.kindName[i] == "ObjectBindingPattern" })
	return only
}

// elemFacts: what the elements of a list can be.
func (a *kAn) elemFacts(e *kEnv, l *kKey, t types.Type) KS {
	var known KS
	if el := a.kids[l]["[*]"]; el != nil && l.op == ".nodes" {
		known, _ = e.get(el)
	}
	if l.op == ".nodes" && l.up != nil && l.up.up != nil {
		own, f := l.up.up, strings.TrimPrefix(l.up.op, ".")
		if _, ok := a.g.nodeStruct(own.typ); ok {
			var s KS
			a.lookup(e, own).each(func(i int) {
				for _, sn := range a.g.structsOf[i] {
					if fd, ok := a.g.fields[sn][f]; ok && fd.Node && fd.List {
						s = s.or(fd.Kinds)
					}
				}
			})
			if both := s.and(known); !both.empty() {
				return both
			}
			if !s.empty() && known.empty() {
				return s
			}
		}
	}
	if !known.empty() {
		return known
	}
	if el := a.kids[l]["[*]"]; el != nil {
		if s, ok := e.get(el); ok {
			return s
		}
	}
	if l.v != nil {
		if f := a.cells[l]; f != nil {
			if ek := a.kids[a.results[0]]["[*]"]; ek != nil {
				if s, ok := f.get(ek); ok {
					return s
				}
			}
		}
	}
	if n := l.up; n != nil && strings.HasPrefix(l.op, ".") && !strings.Contains(l.op, "(") && n.typ != nil {
		if nn := namedOf(deref(n.typ)); nn != nil && nn.Obj().Pkg() != nil && !isTsgoPath(typePkg(n.typ)) {
			if f := a.fields[nn.Obj().Pkg().Path()+"."+nn.Obj().Name()+l.op]; f != nil {
				if ek := a.kids[a.results[0]]["[*]"]; ek != nil {
					if s, ok := f.get(ek); ok {
						return s
					}
				}
			}
		}
	}
	return a.top(t)
}

func (a *kAn) eval(e *kEnv, v ssa.Value) KS {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return ksJustNil
		}
		if isKindT(x.Type()) {
			if i, ok := constInt(x); ok && i >= 0 && i < ksKinds {
				return ksOf(int(i))
			}
		}
		return a.top(x.Type())
	case *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return ksJustOther
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		// an address; of an embedded part of a node, the node
		if f, ok := v.(*ssa.FieldAddr); ok && isAstT(f.X.Type()) {
			if ns, ok := a.g.nodeStruct(v.Type()); ok {
				return a.lookup(e, a.key(v)).and(ns)
			}
		}
		if ns, ok := a.g.nodeStruct(v.Type()); ok {
			return ns
		}
		return ksJustOther
	case *ssa.MakeInterface:
		if nilable(x.X.Type()) {
			return a.eval(e, x.X)
		}
		return ksJustOther
	case *ssa.ChangeType:
		return a.eval(e, x.X)
	case *ssa.ChangeInterface:
		return a.eval(e, x.X)
	case *ssa.FreeVar:
		return ksJustOther
	}
	if k := a.key(v); k != nil {
		return a.lookup(e, k)
	}
	return a.top(v.Type())
}

// meet learns that k is one of s; false if that cannot be.
func (a *kAn) meet(e *kEnv, k *kKey, s KS) bool {
	if k == nil {
		return true
	}
	if k.op == ".Kind" {
		return a.meetNode(e, k.up, s.or(ksJustOther))
	}
	return a.meetNode(e, k, s)
}

func (a *kAn) meetNode(e *kEnv, k *kKey, s KS) bool {
	old := a.lookup(e, k)
	if s.empty() && strings.HasPrefix(k.op, "[") {
		e.set(k, s) // the list is empty
		return true
	}
	n := old.and(s)
	if n.empty() {
		n = old.within2(s)
	}
	if n.empty() {
		return old.empty()
	}
	if n == old {
		return true
	}
	e.set(k, n)
	if k.op == ".propertyName" && n.within(ksEither) && isAstT(k.up.typ) {
		// {a} binds a: only behind "name:" there are patterns
		if pk := a.parentOf(k.up, nil); pk != nil && pk.typ != nil {
			ps := a.lookup(e, pk).and(a.g.nodes)
			only := !ps.empty()
			ps.each(func(i int) { only = only && a.g.kindName[i] == "ObjectBindingPattern" })
			if only {
				nk := a.child(k.up, ".name", nodePtr(a.w))
				s := a.lookup(e, nk)
				s = s.minus(a.g.structs["BindingPattern"])
				e.set(nk, s)
			}
		}
	}
	for _, p := range e.pairs() {
		var o *kKey
		switch k {
		case p[0]:
			o = p[1]
		case p[1]:
			o = p[0]
		default:
			continue
		}
		if !a.meetNode(e, o, n.and(a.g.all).or(ksJustOther)) {
			return false
		}
	}
	return true
}

func (a *kAn) join(x, y *kEnv) *kEnv {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	r := newKEnv()
	if len(x.fs) > 0 && len(x.fs) == len(y.fs) && &x.fs[0] == &y.fs[0] {
		r.fs, r.shared, x.shared, y.shared = x.fs, true, true, true
	} else {
		full := &kEnv{fs: make([]kFact, 0, len(x.fs)+8)}
		i, j := 0, 0
		for i < len(x.fs) || j < len(y.fs) {
			var k *kKey
			var s KS
			switch {
			case j == len(y.fs) || i < len(x.fs) && x.fs[i].k.id < y.fs[j].k.id:
				k = x.fs[i].k
				s = a.lookup(x, k).or(a.lookup(y, k))
				i++
			case i == len(x.fs) || y.fs[j].k.id < x.fs[i].k.id:
				k = y.fs[j].k
				s = a.lookup(x, k).or(a.lookup(y, k))
				j++
			default:
				k = x.fs[i].k
				if s = x.fs[i].s; k.up == nil {
					s = s.or(y.fs[j].s)
				} else if s == y.fs[j].s {
					s = s.and(a.structural(x, k).or(a.structural(y, k)))
				} else {
					s = a.lookup(x, k).or(a.lookup(y, k))
				}
				i, j = i+1, j+1
			}
			full.fs = append(full.fs, kFact{k, s})
		}
		// forget what says nothing
		r.fs = make([]kFact, 0, len(full.fs)+4)
		for _, f := range full.fs {
			if f.k.up != nil && f.k.op != "[*]" && a.structural(full, f.k).within(f.s) {
				continue
			}
			r.fs = append(r.fs, f)
		}
	}
	for _, p := range x.pairs() {
		if y.eq[p] {
			r.alike(p[0], p[1])
		}
	}
	return r
}

func (a *kAn) kill(e *kEnv, root *kKey) {
	e.drop(func(k *kKey) bool { return k.root == root })
}

// bundle gathers what is known about a value and its parts, under the key "to".
func (a *kAn) bundle(e *kEnv, v ssa.Value, to *kKey, into *kEnv) {
	s := a.eval(e, v)
	if a.tracked(v.Type()) {
		into.set(to, s)
	}
	k := a.key(v)
	if k == nil {
		if c, ok := v.(*ssa.Const); ok && c.IsNil() {
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && a.tracked(sl.Elem()) {
				into.set(a.child(to, "[*]", sl.Elem()), KS{})
			}
		}
		return
	}
	a.parts(e, k, to, into)
	if nl := namedOf(deref(v.Type())); nl != nil && isAstT(v.Type()) && nl.Obj().Name() == "NodeList" && k.up != nil {
		if _, isNode := a.g.nodeStruct(k.up.typ); isNode && k.typ != nil {
			el := nodePtr(a.w)
			if el != nil {
				ns := a.child(k, ".nodes", types.NewSlice(el))
				if s := a.elemFacts(e, ns, el); !s.empty() {
					into.set(a.child(a.child(to, ".nodes", types.NewSlice(el)), "[*]", el), s)
				}
			}
		}
	}
	if sl, ok := v.Type().Underlying().(*types.Slice); ok && a.tracked(sl.Elem()) {
		into.set(a.child(to, "[*]", sl.Elem()), a.elemFacts(e, k, sl.Elem()))
	}
}

func (a *kAn) parts(e *kEnv, k, to *kKey, into *kEnv) {
	for q, s := range e.all() {
		if q != k && q.root == k.root && !q.more && q.dep > k.dep {
			if n := a.rebase(q, k, to); n != nil {
				into.set(n, s)
			}
		}
	}
	if to.op == "" && k.up != nil {
		// what is above a part
		if p := a.parentOf(k, nil); p != nil && p.op != ".Parent" && p.typ != nil {
			if _, ok := a.g.nodeStruct(p.typ); ok {
				if pk := a.child(to, ".Parent", p.typ); pk != nil {
					s := a.lookup(e, p).minus(ksEither)
					into.set(pk, s)
				}
			}
		}
	}
}

// note joins what was learnt into a table of facts that hold for all runs.
func note(old, n *kEnv) *kEnv {
	if old == nil {
		return n
	}
	r := newKEnv()
	for k, s := range old.all() {
		if t, ok := n.get(k); ok {
			r.set(k, s.or(t))
		}
	}
	return r
}

// ---- branches --------------------------------------------------------------

func (a *kAn) refine(fr *kFrame, e *kEnv, c ssa.Value, truth bool, d int) *kEnv {
	if e == nil || d > 12 {
		return e
	}
	switch x := c.(type) {
	case *ssa.Const:
		if b, ok := constBool(x); ok && b != truth {
			return nil
		}
	case *ssa.Parameter:
		return a.holds(e, a.key(x), truth)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.refine(fr, e, x.X, !truth, d+1)
		}
		// a variable set once, or one of the function around
		if k := a.key(x); k != nil && isTruthT(x.Type()) {
			if v := valueOf(k); v != nil && v != c {
				if _, cell := v.(*ssa.Alloc); !cell {
					if ownerOf(v) == fr.fn {
						return a.refine(fr, e, v, truth, d+1)
					}
					return a.holds(e, k, truth)
				}
			}
		}
	case *ssa.BinOp:
		return a.compare(fr, e, x, truth, d)
	case *ssa.Phi:
		if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool && bt.Kind() != types.UntypedBool {
			return e
		}
		var r *kEnv
		any := false
		for i, p := range x.Block().Preds {
			pe := fr.edge[[2]*ssa.BasicBlock{p, x.Block()}]
			if pe == nil {
				continue
			}
			if x.Block().Dominates(p) {
				return e // a loop
			}
			q := a.refine(fr, pe.clone(), x.Edges[i], truth, d+1)
			if q == nil {
				continue
			}
			any = true
			r = a.join(r, q)
		}
		if !any {
			return nil
		}
		return a.meetAll(e, r, x.Block())
	case *ssa.Call:
		if fr.calls[x] != nil {
			return a.byCases(fr, e, x, 0, func(cl byte) bool { return cl == '?' || (cl == 't') == truth })
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if fr.calls[t] != nil {
				return a.byCases(fr, e, t, x.Index, func(cl byte) bool { return cl == '?' || (cl == 't') == truth })
			}
		case *ssa.Lookup, *ssa.TypeAssert:
			if x.Index == 1 && truth {
				n := e.clone()
				k := a.rootKey(x.Tuple, 1, nil)
				if s, ok := n.get(k); ok {
					n.set(k, s.minus(ksEither))
				}
				return n
			}
		}
	}
	return e
}

// holds: a truth value is known.
func (a *kAn) holds(e *kEnv, k *kKey, truth bool) *kEnv {
	if k == nil || k.op != "" {
		return e
	}
	n := e.clone()
	s := ksFalse
	if truth {
		s = ksTrue
	}
	if !a.meet(n, k, s) {
		return nil
	}
	return n
}

// implied: what the outcome of a call says about values that were passed to it says more about
// where these came from.
func (a *kAn) implied(fr *kFrame, e, o *kEnv) *kEnv {
	if a.implying > 3 {
		return e
	}
	a.implying++
	defer func() { a.implying-- }()
	for _, k := range o.keys() {
		if e == nil {
			return nil
		}
		v := valueOf(k)
		if v == nil || ownerOf(v) != fr.fn {
			continue
		}
		s := o.at(k)
		switch {
		case isTruthT(v.Type()):
			if s == ksTrue || s == ksFalse {
				if _, ok := v.(*ssa.Parameter); !ok {
					e = a.refine(fr, e, v, s == ksTrue, 6)
				}
			}
		case nilable(v.Type()):
			c, i := callRes(v)
			if c == nil || fr.calls[c] == nil {
				continue
			}
			if isNil := s.within(ksEither); isNil || s.and(ksEither).empty() && !s.empty() {
				want := byte('v')
				if isNil {
					want = 'n'
				}
				e = a.byCases(fr, e, c, i, func(cl byte) bool { return cl == '?' || cl == want })
			}
		}
	}
	return e
}

// meetAll adds the facts of o that are about values defined before block b.
func (a *kAn) meetAll(e, o *kEnv, b *ssa.BasicBlock) *kEnv {
	r := e.clone()
	for _, k := range o.keys() {
		if b != nil && k.root.v != nil {
			if in, ok := k.root.v.(ssa.Instruction); ok && in.Parent() == b.Parent() && in.Block() != nil && !in.Block().Dominates(b) {
				continue
			}
		}
		if k.op == "[*]" {
			continue
		}
		if !a.meet(r, k, o.at(k)) {
			return nil
		}
	}
	for _, p := range o.pairs() {
		if b == nil {
			r.alike(p[0], p[1])
		}
	}
	return r
}

func (a *kAn) byCases(fr *kFrame, e *kEnv, c *ssa.Call, i int, ok func(byte) bool) *kEnv {
	var r *kEnv
	n := 0
	for _, cs := range fr.calls[c].cases {
		if i < len(cs.class) && !ok(cs.class[i]) {
			continue
		}
		n++
		r = a.join(r, cs.env)
	}
	if n == 0 {
		return nil
	}
	before := e
	e = a.meetAll(e, r, nil)
	if e == nil {
		return nil
	}
	// only what the case adds
	add := newKEnv()
	for k, s := range r.all() {
		if k.up == nil && s != a.lookup(before, k) {
			add.set(k, s)
		}
	}
	return a.implied(fr, e, add)
}

func (a *kAn) compare(fr *kFrame, e *kEnv, x *ssa.BinOp, truth bool, d int) *kEnv {
	op := x.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	l, r := x.X, x.Y
	if bt, ok := l.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		if b, ok := constBool(r); ok && (op == token.EQL || op == token.NEQ) {
			return a.refine(fr, e, l, b == (op == token.EQL), d+1)
		}
		return e
	}
	if c, ok := l.(*ssa.Const); ok && !isConstV(r) {
		_ = c
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !a.tracked(l.Type()) {
		if c, ok := constInt(r); ok {
			return a.numbers(e, l, op, c)
		}
		return e
	}
	out := e.clone()
	if isKindT(l.Type()) {
		if c, ok := r.(*ssa.Const); ok {
			v, _ := constInt(c)
			var keep KS
			a.eval(e, l).each(func(i int) {
				if i >= ksKinds {
					return
				}
				k := int64(i)
				if op == token.EQL && k == v || op == token.NEQ && k != v || op == token.LSS && k < v || op == token.LEQ && k <= v || op == token.GTR && k > v || op == token.GEQ && k >= v {
					keep.add(i)
				}
			})
			if keep.empty() {
				return nil
			}
			if k := a.key(l); k != nil && !a.meet(out, k, keep) {
				return nil
			}
			return out
		}
	}
	if op == token.EQL || op == token.NEQ {
		if isNilV(r) {
			s := a.eval(e, l)
			var keep KS
			if op == token.EQL {
				keep = s.and(ksEither)
			} else {
				keep = s.minus(ksEither)
			}
			if keep.empty() {
				return nil
			}
			if k := a.key(l); k != nil && !a.meet(out, k, keep) {
				return nil
			}
			if c, i := callRes(l); c != nil && fr.calls[c] != nil {
				want := byte('v')
				if op == token.EQL {
					want = 'n'
				}
				return a.byCases(fr, out, c, i, func(cl byte) bool { return cl == '?' || cl == want })
			}
			return out
		}
		if op == token.EQL && !isKindT(l.Type()) {
			both := a.eval(e, l).and(a.eval(e, r))
			if both.empty() {
				return nil
			}
			kl, kr := a.key(l), a.key(r)
			if kl != nil && !a.meet(out, kl, both) {
				return nil
			}
			if kr != nil && !a.meet(out, kr, both) {
				return nil
			}
			return out
		}
		if op == token.EQL {
			both := a.eval(e, l).and(a.eval(e, r))
			if both.empty() {
				return nil
			}
			if kl := a.key(l); kl != nil && !a.meet(out, kl, both) {
				return nil
			}
			kl, kr := a.key(l), a.key(r)
			if kr != nil && !a.meet(out, kr, both) {
				return nil
			}
			if kl != nil && kr != nil && kl.op == ".Kind" && kr.op == ".Kind" {
				out.alike(kl.up, kr.up)
			}
		}
	}
	return out
}

// flagsOf: the object whose flags the value is.
func (a *kAn) flagsOf(v ssa.Value) *kKey {
	switch x := v.(type) {
	case *ssa.Call:
		f := a.w.real(x.Call.StaticCallee())
		if f != nil && len(x.Call.Args) == 1 && strings.HasSuffix(strings.ToLower(f.Name()), "flags") {
			return a.key(x.Call.Args[0])
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && strings.HasSuffix(strings.ToLower(fieldNm(fa)), "flags") {
			return a.key(fa.X)
		}
	}
	return nil
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isConstV(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func isNilV(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func callRes(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// ---- functions -------------------------------------------------------------

func (a *kAn) fnID(f *ssa.Function) uint32 {
	if n, ok := a.fnIDs[f]; ok {
		return n
	}
	n := uint32(len(a.fnIDs) + 1)
	a.fnIDs[f] = n
	return n
}

// setID numbers the sets that are met.
func (a *kAn) setID(s KS) uint32 {
	if n, ok := a.setIDs[s]; ok {
		return n
	}
	n := uint32(len(a.setIDs) + 1)
	a.setIDs[s] = n
	return n
}

// ctxKey names a function with what is known when it is entered.
func (a *kAn) ctxKey(fn *ssa.Function, in *kEnv, fns map[ssa.Value][]*ssa.Function) string {
	b := make([]byte, 0, 8*len(in.fs)+16)
	put := binary.BigEndian.AppendUint32
	b = put(b, a.fnID(fn))
	for _, f := range in.fs {
		b = put(put(b, uint32(f.k.id)), a.setID(f.s))
	}
	for _, p := range in.pairs() {
		b = put(put(append(b, '~'), uint32(p[0].id)), uint32(p[1].id))
	}
	for i, p := range fn.Params {
		for _, f := range fns[p] {
			b = put(put(append(b, '!'), uint32(i)), a.fnID(f))
		}
	}
	return string(b)
}

const kMaxDepth = 30

// summary looks at fn with what is known on entry.
func (a *kAn) summary(up *kFrame, fn *ssa.Function, in *kEnv, fns map[ssa.Value][]*ssa.Function, quiet bool) *kSum {
	ck := a.ctxKey(fn, in, fns)
	if s := a.sums[ck]; s != nil {
		if s.busy {
			s.asked = true
			for f := up; f != nil && f.sum != s; f = f.up {
				f.open = true
			}
			return s
		}
		if s.round == a.round {
			return s
		}
	}
	n, same := 0, 0
	for f := up; f != nil; f = f.up {
		n++
		if f.fn == fn {
			same++
		}
	}
	if n > kMaxDepth || same > 2 {
		return nil
	}
	s := &kSum{busy: true, round: a.round}
	a.sums[ck] = s
	a.ctxs[fn]++
	a.evals++
	if isRepoPath(fnPkgPath(fn)) {
		a.reached[fn] = true
	}
	for pass := 0; pass < 6; pass++ {
		fr := &kFrame{fn: fn, fns: fns, in: map[*ssa.BasicBlock]*kEnv{}, edge: map[[2]*ssa.BasicBlock]*kEnv{}, calls: map[*ssa.Call]*kCalled{}, cases: map[string]*kCase{}, up: up, sum: s, quiet: quiet}
		s.asked = false
		old := a.pkg
		a.pkg = fnPkgPath(fn)
		a.run(fr, in)
		a.pkg = old
		var cl []string
		for c := range fr.cases {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		var now []*kCase
		for _, c := range cl {
			now = append(now, fr.cases[c])
		}
		same := sameCases(s.cases, now)
		s.cases = now
		s.bad = uniq(fr.bad)
		s.open = fr.open
		if up != nil && fr.open {
			// what was found holds only as far as the outer call has got
			delete(a.sums, ck)
		}
		if !s.asked || same {
			break
		}
	}
	s.busy = false
	return s
}

func (a *kAn) run(fr *kFrame, in *kEnv) {
	if len(fr.fn.Blocks) == 0 {
		return
	}
	entry := fr.fn.Blocks[0]
	fr.in[entry] = in.clone()
	work := []*ssa.BasicBlock{entry}
	queued := map[*ssa.BasicBlock]bool{entry: true}
	visits := map[*ssa.BasicBlock]int{}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range rpo(fr.fn) {
		pos[b] = i
	}
	for len(work) > 0 {
		best := 0
		for i := range work {
			if pos[work[i]] < pos[work[best]] {
				best = i
			}
		}
		b := work[best]
		work = append(work[:best], work[best+1:]...)
		queued[b] = false
		visits[b]++
		if visits[b] > 40 {
			continue
		}
		e := fr.in[b]
		if e == nil {
			continue
		}
		e = e.clone()
		e = a.block(fr, b, e)
		for i, s := range b.Succs {
			var out *kEnv
			if e != nil {
				out = e.clone()
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if b.Succs[0] != b.Succs[1] {
						out = a.refine(fr, out, iff.Cond, i == 0, 0)
					}
				}
				if out != nil {
					out = a.phis(fr, b, s, out)
				}
			}
			k := [2]*ssa.BasicBlock{b, s}
			old, had := fr.edge[k]
			if had && (old == nil) == (out == nil) && (old == nil || old.same(out)) {
				continue
			}
			fr.edge[k] = out
			var nin *kEnv
			for _, p := range s.Preds {
				if pe := fr.edge[[2]*ssa.BasicBlock{p, s}]; pe != nil {
					nin = a.join(nin, pe)
				}
			}
			if nin == nil {
				continue
			}
			if fr.in[s] != nil && fr.in[s].same(nin) {
				continue
			}
			fr.in[s] = nin
			if !queued[s] {
				queued[s] = true
				work = append(work, s)
			}
		}
	}
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		r = append(r, b)
	}
	walk(f.Blocks[0])
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (a *kAn) phis(fr *kFrame, from, to *ssa.BasicBlock, e *kEnv) *kEnv {
	ix := -1
	for i, p := range to.Preds {
		if p == from {
			ix = i
		}
	}
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if a.tracked(p.Type()) {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 || ix < 0 {
		return e
	}
	add := newKEnv()
	for _, p := range ps {
		pk := a.rootKey(p, 0, p.Type())
		a.bundle(e, p.Edges[ix], pk, add)
		if _, isNode := a.g.nodeStruct(p.Type()); !isNode && isNilV(p.Edges[ix]) {
			add.set(pk, ksMaybeNil)
		}
	}
	for _, p := range ps {
		a.kill(e, a.rootKey(p, 0, p.Type()))
	}
	for k, s := range add.all() {
		e.set(k, s)
	}
	return e
}

// numbers: what follows from a comparison of a number with a constant.
func (a *kAn) numbers(e *kEnv, l ssa.Value, op token.Token, c int64) *kEnv {
	switch x := l.(type) {
	case *ssa.Call:
		// an empty list has no elements
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || !(op == token.LSS && c <= 1 || op == token.LEQ && c <= 0 || op == token.EQL && c == 0) {
			return e
		}
		sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice)
		k := a.key(x.Call.Args[0])
		if !ok || k == nil || !a.tracked(sl.Elem()) {
			return e
		}
		out := e.clone()
		for i := 0; i < 3; i++ {
			out.set(a.child(k, fmt.Sprintf("[%d]", i), sl.Elem()), KS{})
		}
		return out
	case *ssa.BinOp:
		// a symbol with flags has what the flags say
		if x.Op != token.AND || !(op == token.NEQ && c == 0) {
			return e
		}
		k := a.flagsOf(x.X)
		if k == nil || k.typ == nil {
			return e
		}
		var vk *kKey
		switch {
		case isNamed(deref(k.typ), pAst, "Symbol"):
			vk = a.child(k, ".valueDeclaration", nodePtr(a.w))
		case isNamed(deref(k.typ), tsgoPath+"/internal/checker", "Type") && a.w.namedType(pAst, "Symbol") != nil:
			vk = a.child(k, ".symbol", types.NewPointer(a.w.namedType(pAst, "Symbol")))
		default:
			return e
		}
		if s := a.lookup(e, vk); s.has(ksNil) {
			out := e.clone()
			out.set(vk, soften(s))
			return out
		}
	}
	return e
}

func sameCases(x, y []*kCase) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].class != y[i].class || !x[i].env.same(y[i].env) || len(x[i].keys) != len(y[i].keys) {
			return false
		}
		for j := range x[i].keys {
			if x[i].keys[j] != y[i].keys[j] {
				return false
			}
		}
	}
	return true
}

package main

// A small join-based abstract interpreter over SSA, used to decide what a decoding
// function stores for every input of a described JSON shape. Values are finite sets
// of atoms; branches whose condition is not determined by the shape are joined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jshape describes the JSON values the analysis is about.
type jshape struct {
	Kind   string // null bool string array object given (valid for whatever it is decoded into)
	Name   string
	Str    string // constant string, when HasStr
	HasStr bool
	NotStr map[string]bool // a string known to differ from these
	Elems  []*jshape
	Fields map[string]*jshape // object: nil value = absent; missing key = unknown
	Closed bool               // object: keys not listed are absent
}

type atom struct {
	K    string // const nil ptr struct sym box slice fn err text jobj
	C    constant.Value
	T    types.Type
	S    string
	Cell int
	Path string
	N    int
	F    map[string]aval
	In   *atom
	Fn   *ssa.Function
	B    []aval
	J    *jshape
	key  string
}

type aval struct {
	top bool
	as  map[string]*atom
}

func (x *atom) id() string {
	if x.key != "" {
		return x.key
	}
	switch x.K {
	case "const":
		x.key = "c:" + x.C.ExactString()
	case "nil":
		x.key = "nil"
	case "ptr":
		x.key = fmt.Sprintf("p:%d.%s", x.Cell, x.Path)
	case "slice":
		x.key = fmt.Sprintf("s:%d.%s[%d]", x.Cell, x.Path, x.N)
	case "struct":
		var ks []string
		for k := range x.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteString("{")
		for _, k := range ks {
			b.WriteString(k + "=" + x.F[k].id() + ";")
		}
		b.WriteString("}" + types.TypeString(x.T, nil))
		x.key = b.String()
	case "box":
		x.key = "b:" + types.TypeString(x.T, nil) + "(" + x.In.id() + ")"
	case "fn":
		x.key = fmt.Sprintf("f:%p", x.Fn)
		for _, b := range x.B {
			x.key += "," + b.id()
		}
	case "text", "jobj":
		x.key = fmt.Sprintf("%s:%p", x.K, x.J)
	default:
		x.key = x.K + ":" + x.S
	}
	return x.key
}

func (v aval) id() string {
	if v.top {
		return "T"
	}
	var ks []string
	for k := range v.as {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "[" + strings.Join(ks, "|") + "]"
}

var topV = aval{top: true}

func av(as ...*atom) aval {
	m := map[string]*atom{}
	for _, a := range as {
		m[a.id()] = a
	}
	return aval{as: m}
}
func avConst(c constant.Value) aval { return av(&atom{K: "const", C: c}) }
func avBool(b bool) aval            { return avConst(constant.MakeBool(b)) }

var anyBool = av(&atom{K: "const", C: constant.MakeBool(true)}, &atom{K: "const", C: constant.MakeBool(false)})
var nilV = av(&atom{K: "nil"})
var errV = av(&atom{K: "err"})

func avSym(s string) aval { return av(&atom{K: "sym", S: s}) }

func joinV(a, b aval) aval {
	if a.top || b.top {
		return topV
	}
	m := map[string]*atom{}
	for k, x := range a.as {
		m[k] = x
	}
	for k, x := range b.as {
		m[k] = x
	}
	var first *atom
	for _, k := range sortedAtoms(m) {
		x := m[k]
		if x.K != "struct" {
			continue
		}
		if first == nil {
			first = x
			continue
		}
		if !types.Identical(first.T, x.T) {
			return topV
		}
		f := map[string]aval{}
		for _, y := range []*atom{first, x} {
			for k := range y.F {
				if _, ok := f[k]; !ok {
					f[k] = joinV(first.part(k), x.part(k))
				}
			}
		}
		delete(m, first.id())
		delete(m, k)
		first = &atom{K: "struct", T: first.T, F: f}
		m[first.id()] = first
	}
	if len(m) > 48 {
		return topV
	}
	return aval{as: m}
}

func sortedAtoms(m map[string]*atom) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func zeroV(t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return avBool(false)
		case u.Info()&types.IsString != 0:
			return avConst(constant.MakeString(""))
		case u.Info()&types.IsNumeric != 0:
			return avConst(constant.MakeInt64(0))
		}
		return nilV
	case *types.Struct, *types.Array:
		return av(&atom{K: "struct", T: t, F: map[string]aval{}})
	case *types.Tuple:
		return topV
	}
	return nilV
}

func partType(t types.Type, k string) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		i, _ := strconv.Atoi(k)
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (x *atom) part(k string) aval {
	if v, ok := x.F[k]; ok {
		return v
	}
	pt := partType(x.T, k)
	if pt == nil {
		return topV
	}
	return zeroV(pt)
}

func (x *atom) parts() []string {
	switch u := x.T.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, strconv.Itoa(i))
		}
		return r
	case *types.Array:
		var r []string
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, strconv.FormatInt(i, 10))
		}
		return r
	}
	return nil
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p, ".")
}

func readPath(v aval, path []string) aval {
	if len(path) == 0 {
		return v
	}
	if v.top {
		return topV
	}
	res := aval{as: map[string]*atom{}}
	for _, x := range v.as {
		if x.K != "struct" {
			if x.K == "sym" {
				res = joinV(res, avSym(x.S+"."+strings.Join(path, ".")))
				continue
			}
			return topV
		}
		if path[0] == "*" {
			for _, k := range x.parts() {
				res = joinV(res, readPath(x.part(k), path[1:]))
			}
			continue
		}
		res = joinV(res, readPath(x.part(path[0]), path[1:]))
	}
	return res
}

func writePath(v aval, path []string, nv aval, weak bool) aval {
	if len(path) == 0 {
		if weak {
			return joinV(v, nv)
		}
		return nv
	}
	if v.top {
		return topV
	}
	res := aval{as: map[string]*atom{}}
	for _, x := range v.as {
		if x.K != "struct" {
			return topV
		}
		f := map[string]aval{}
		for k, y := range x.F {
			f[k] = y
		}
		if path[0] == "*" {
			for _, k := range x.parts() {
				f[k] = writePath(x.part(k), path[1:], nv, true)
			}
		} else {
			f[path[0]] = writePath(x.part(path[0]), path[1:], nv, weak)
		}
		res = joinV(res, av(&atom{K: "struct", T: x.T, F: f}))
	}
	return res
}

type astate struct {
	mem  map[int]aval
	fail bool   // a decoding step reported an error on this path
	log  string // which decoding steps succeeded and failed
}

func (s *astate) clone() *astate {
	m := make(map[int]aval, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &astate{m, s.fail, s.log}
}

type outcome struct {
	st     *astate
	rets   []aval
	panics bool
}

type Abs struct {
	W       *World
	cells   map[string]int
	gcells  map[int]aval // contents of package-level literals, never written
	steps   int
	Trace   []string
	notes   map[string]bool
	BoolVal *atom // the boolean of the document, when fixed
}

func newAbs(w *World) *Abs {
	return &Abs{W: w, cells: map[string]int{}, gcells: map[int]aval{}, notes: map[string]bool{}}
}

func (a *Abs) cell(key string) int {
	if id, ok := a.cells[key]; ok {
		return id
	}
	a.cells[key] = len(a.cells) + 1
	return len(a.cells)
}

func (a *Abs) load(st *astate, p aval) aval {
	if p.top {
		return topV
	}
	res := aval{as: map[string]*atom{}}
	for _, x := range p.as {
		switch x.K {
		case "ptr":
			v, ok := st.mem[x.Cell]
			if !ok {
				v, ok = a.gcells[x.Cell]
			}
			if !ok {
				return topV
			}
			res = joinV(res, readPath(v, splitPath(x.Path)))
		case "sym":
			res = joinV(res, avSym("*"+x.S))
		case "nil": // would panic
		default:
			return topV
		}
	}
	return res
}

func (a *Abs) store(st *astate, p, v aval) {
	if p.top {
		for k := range st.mem {
			st.mem[k] = topV
		}
		a.notes["a store through an unknown pointer"] = true
		return
	}
	weak := len(p.as) > 1
	for _, x := range p.as {
		if x.K != "ptr" {
			continue
		}
		cur, ok := st.mem[x.Cell]
		if !ok {
			st.mem[x.Cell] = topV
			continue
		}
		st.mem[x.Cell] = writePath(cur, splitPath(x.Path), v, weak)
	}
}

// havoc: an unknown callee may have changed whatever these values lead to.
func (a *Abs) havoc(st *astate, vs []aval) {
	seen := map[int]bool{}
	var walk func(v aval)
	walk = func(v aval) {
		for _, x := range v.as {
			switch x.K {
			case "ptr", "slice":
				if !seen[x.Cell] {
					seen[x.Cell] = true
					if c, ok := st.mem[x.Cell]; ok {
						walk(c)
						st.mem[x.Cell] = topV
					}
				}
			case "box":
				walk(av(x.In))
			case "struct":
				for _, f := range x.F {
					walk(f)
				}
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
}

func joinState(x, y *astate) (*astate, bool) {
	ch := false
	r := x.clone()
	for k, v := range y.mem {
		o, ok := r.mem[k]
		if !ok {
			r.mem[k] = v
			ch = true
			continue
		}
		n := joinV(o, v)
		if n.id() != o.id() {
			r.mem[k] = n
			ch = true
		}
	}
	return r, ch
}

type aenv map[ssa.Value]aval

func (e aenv) clone() aenv {
	r := make(aenv, len(e))
	for k, v := range e {
		r[k] = v
	}
	return r
}

type frameX struct {
	a     *Abs
	fn    *ssa.Function
	ctx   string
	depth int
	binds []aval
	args  []aval
	in    map[string]*blockIn
	work  []string
	out   map[string]*outcome
	count map[*ssa.BasicBlock]int
	loops []*Loop
	bad   bool
}

type blockIn struct {
	b   *ssa.BasicBlock
	env aenv
	st  *astate
}

// run evaluates fn; the outcomes are grouped by whether a step failed and by
// the nil-ness of the results.
func (a *Abs) run(fn *ssa.Function, args, binds []aval, st *astate, ctx string, depth int) ([]*outcome, bool) {
	if fn.Blocks == nil || depth > 12 {
		return nil, false
	}
	f := &frameX{a: a, fn: fn, ctx: ctx, depth: depth, binds: binds, args: args, in: map[string]*blockIn{}, out: map[string]*outcome{}, count: map[*ssa.BasicBlock]int{}, loops: loopsOf(fn)}
	env := aenv{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = topV
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		} else {
			env[p] = topV
		}
	}
	f.arrive(fn.Blocks[0], env, st.clone())
	for len(f.work) > 0 {
		k := f.work[0]
		f.work = f.work[1:]
		bi := f.in[k]
		a.steps++
		if a.steps > 200000 {
			return nil, false
		}
		f.step(bi.b, 0, bi.env.clone(), bi.st.clone())
		if f.bad {
			return nil, false
		}
	}
	var res []*outcome
	var ks []string
	for k := range f.out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		res = append(res, f.out[k])
	}
	return res, true
}

func constOf(v aval) (constant.Value, bool) {
	if v.top || len(v.as) != 1 {
		return nil, false
	}
	for _, x := range v.as {
		if x.K == "const" {
			return x.C, true
		}
	}
	return nil, false
}

func (f *frameX) partition(b *ssa.BasicBlock, env aenv, st *astate) string {
	k := fmt.Sprintf("%d/%v%s", b.Index, st.fail, st.log)
	f.count[b]++
	if f.count[b] > 400 {
		return k
	}
	for _, l := range f.loops {
		if !l.Body[b] {
			continue
		}
		for _, ins := range l.Header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if bt, ok := phi.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			if c, ok := constOf(env[phi]); ok {
				k += "/" + phi.Name() + "=" + c.ExactString()
			}
		}
	}
	return k
}

func (f *frameX) arrive(b *ssa.BasicBlock, env aenv, st *astate) {
	k := f.partition(b, env, st)
	bi := f.in[k]
	if bi == nil {
		f.in[k] = &blockIn{b, env, st}
		f.work = append(f.work, k)
		return
	}
	n, ch := joinState(bi.st, st)
	bi.st = n
	for v, x := range env {
		o, ok := bi.env[v]
		if !ok {
			bi.env[v] = x
			ch = true
			continue
		}
		j := joinV(o, x)
		if j.id() != o.id() {
			bi.env[v] = j
			ch = true
		}
	}
	if ch {
		for _, w := range f.work {
			if w == k {
				return
			}
		}
		f.work = append(f.work, k)
	}
}

func (f *frameX) edge(from, to *ssa.BasicBlock, env aenv, st *astate) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	ne := env.clone()
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ne[phi] = f.val(env, phi.Edges[idx])
	}
	f.arrive(to, ne, st.clone())
}

func (f *frameX) val(env aenv, v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroV(x.Type())
		}
		return avConst(x.Value)
	case *ssa.Function:
		return av(&atom{K: "fn", Fn: x})
	case *ssa.Global:
		return f.a.globalPtr(x)
	}
	if r, ok := env[v]; ok {
		return r
	}
	return topV
}

// globalPtr: the address of a package-level variable that is set once, to a literal.
func (a *Abs) globalPtr(g *ssa.Global) aval {
	key := "global:" + g.String()
	if _, ok := a.cells[key]; !ok {
		id := a.cell(key)
		a.gcells[id] = topV
		v := topV
		n := 0
		for _, f := range a.W.allFns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == g {
							n++
							v = a.literal(x.Val, 0)
							continue
						}
					}
				}
			}
		}
		if n == 0 {
			v = zeroV(deref(g.Type()))
		}
		if n > 1 {
			v = topV
		}
		a.gcells[id] = v
	}
	return av(&atom{K: "ptr", Cell: a.cells[key]})
}

// literal evaluates a composite literal in an initialiser.
func (a *Abs) literal(v ssa.Value, d int) aval {
	if d > 6 {
		return topV
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroV(x.Type())
		}
		return avConst(x.Value)
	case *ssa.ChangeType:
		return a.literal(x.X, d+1)
	case *ssa.MakeInterface:
		in := a.literal(x.X, d+1)
		if in.top {
			return topV
		}
		r := aval{as: map[string]*atom{}}
		for _, y := range in.as {
			b := &atom{K: "box", T: x.X.Type(), In: y}
			r.as[b.id()] = b
		}
		return r
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return a.allocLiteral(al, d+1)
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return topV
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return topV
		}
		id := a.cell(fmt.Sprintf("lit:%p", al))
		a.gcells[id] = a.allocLiteral(al, d+1)
		return av(&atom{K: "slice", Cell: id, N: int(arr.Len())})
	}
	return topV
}

func (a *Abs) allocLiteral(al *ssa.Alloc, d int) aval {
	cur := zeroV(deref(al.Type()))
	for _, ins := range al.Block().Instrs {
		st, ok := ins.(*ssa.Store)
		if !ok {
			continue
		}
		path, root := []string{}, st.Addr
		for {
			if ia, ok := root.(*ssa.IndexAddr); ok {
				i, ok := constInt(ia.Index)
				if !ok {
					return topV
				}
				path = append([]string{strconv.FormatInt(i, 10)}, path...)
				root = ia.X
				continue
			}
			if fa, ok := root.(*ssa.FieldAddr); ok {
				path = append([]string{strconv.Itoa(fa.Field)}, path...)
				root = fa.X
				continue
			}
			break
		}
		if root == al {
			cur = writePath(cur, path, a.literal(st.Val, d+1), false)
		}
	}
	return cur
}

func nilness(v aval) (nilOK, nonNil bool) {
	if v.top {
		return true, true
	}
	for _, x := range v.as {
		if x.K == "nil" {
			nilOK = true
		} else if x.K == "sym" && strings.HasPrefix(x.S, "?") {
			nilOK, nonNil = true, true
		} else {
			nonNil = true
		}
	}
	return
}

// equalA: can the two atoms be equal / different.
func equalA(x, y *atom) (eq, ne bool) {
	if x.K == "box" {
		x = x.In
	}
	if y.K == "box" {
		y = y.In
	}
	if y.K == "text" || y.K == "nil" || (y.K == "sym" && x.K != "text" && x.K != "nil") {
		x, y = y, x
	}
	switch {
	case x.K == "nil":
		if y.K == "sym" && strings.HasPrefix(y.S, "?") {
			return true, true
		}
		return y.K == "nil", y.K != "nil"
	case x.K == "const" && y.K == "const":
		e := x.C.Kind() == y.C.Kind() && constant.Compare(x.C, token.EQL, y.C)
		return e, !e
	case x.K == "text" && y.K == "const":
		if y.C.Kind() != constant.String {
			return false, true
		}
		s := constant.StringVal(y.C)
		if s == "null" {
			return x.J.Kind == "null", x.J.Kind != "null"
		}
		if x.J.Kind == "null" {
			return false, true
		}
		return true, true
	case x.K == "sym" && y.K == "const":
		if x.J != nil && y.C.Kind() == constant.String && x.J.NotStr[constant.StringVal(y.C)] {
			return false, true
		}
		return true, true
	case x.K == "ptr" && y.K == "ptr":
		e := x.id() == y.id()
		return e, !e
	}
	return true, true
}

func equalV(x, y aval) aval {
	if x.top || y.top {
		return anyBool
	}
	r := aval{as: map[string]*atom{}}
	for _, p := range x.as {
		for _, q := range y.as {
			e, n := equalA(p, q)
			if e {
				r = joinV(r, avBool(true))
			}
			if n {
				r = joinV(r, avBool(false))
			}
		}
	}
	return r
}

func notV(v aval) aval {
	if v.top {
		return anyBool
	}
	r := aval{as: map[string]*atom{}}
	for _, x := range v.as {
		if x.K == "const" && x.C.Kind() == constant.Bool {
			r = joinV(r, avBool(!constant.BoolVal(x.C)))
		} else {
			return anyBool
		}
	}
	return r
}

func mayBe(v aval, b bool) bool {
	if v.top {
		return true
	}
	for _, x := range v.as {
		if x.K != "const" || x.C.Kind() != constant.Bool || constant.BoolVal(x.C) == b {
			return true
		}
	}
	return false
}

func (f *frameX) step(b *ssa.BasicBlock, i int, env aenv, st *astate) {
	for ; i < len(b.Instrs); i++ {
		if f.bad {
			return
		}
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if p, ok := x.(*ssa.Phi); ok && b == f.fn.Blocks[0] {
				_ = p
			}
		case *ssa.Alloc:
			id := f.a.cell(fmt.Sprintf("%s@%p", f.ctx, x))
			st.mem[id] = zeroV(deref(x.Type()))
			env[x] = av(&atom{K: "ptr", Cell: id})
		case *ssa.Store:
			f.a.store(st, f.val(env, x.Addr), f.val(env, x.Val))
		case *ssa.UnOp:
			env[x] = f.unop(env, st, x)
		case *ssa.BinOp:
			env[x] = f.binop(env, x)
		case *ssa.FieldAddr:
			env[x] = subPtr(f.val(env, x.X), strconv.Itoa(x.Field))
		case *ssa.Field:
			env[x] = readPath(f.val(env, x.X), []string{strconv.Itoa(x.Field)})
		case *ssa.IndexAddr:
			env[x] = f.indexAddr(env, x)
		case *ssa.Index:
			k := "*"
			if c, ok := constOf(f.val(env, x.Index)); ok {
				k = c.ExactString()
			}
			env[x] = readPath(f.val(env, x.X), []string{k})
		case *ssa.Slice:
			env[x] = f.slice(env, x)
		case *ssa.ChangeType:
			env[x] = f.val(env, x.X)
		case *ssa.Convert:
			env[x] = f.convert(f.val(env, x.X), x)
		case *ssa.ChangeInterface:
			env[x] = f.val(env, x.X)
		case *ssa.MakeInterface:
			v := f.val(env, x.X)
			r := aval{as: map[string]*atom{}}
			if v.top {
				r = topV
			}
			for _, y := range v.as {
				r = joinV(r, av(&atom{K: "box", T: x.X.Type(), In: y}))
			}
			env[x] = r
		case *ssa.TypeAssert:
			env[x] = f.typeAssert(f.val(env, x.X), x)
		case *ssa.Extract:
			v := f.val(env, x.Tuple)
			env[x] = readPath(v, []string{strconv.Itoa(x.Index)})
		case *ssa.Lookup:
			env[x] = f.lookup(env, x)
		case *ssa.MakeClosure:
			c := &atom{K: "fn", Fn: x.Fn.(*ssa.Function)}
			for _, y := range x.Bindings {
				c.B = append(c.B, f.val(env, y))
			}
			env[x] = av(c)
		case *ssa.MakeSlice:
			n, ok := constOf(f.val(env, x.Len))
			if !ok {
				env[x] = topV
				break
			}
			k, _ := constant.Int64Val(n)
			id := f.a.cell(fmt.Sprintf("%s@%p", f.ctx, x))
			st.mem[id] = zeroV(types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), k))
			env[x] = av(&atom{K: "slice", Cell: id, N: int(k)})
		case *ssa.Call:
			outs, ok := f.call(env, st, x)
			if !ok {
				f.bad = true
				return
			}
			for k, o := range outs {
				if o.panics {
					f.addOut(o)
					continue
				}
				ne := env
				if k < len(outs)-1 {
					ne = env.clone()
				}
				ne[x] = tupleV(x.Type(), o.rets)
				if k == len(outs)-1 {
					env, st = ne, o.st
				} else {
					f.step(b, i+1, ne, o.st)
				}
			}
			if len(outs) == 0 || outs[len(outs)-1].panics {
				return
			}
		case *ssa.Jump:
			f.edge(b, b.Succs[0], env, st)
		case *ssa.If:
			c := f.val(env, x.Cond)
			for s, want := range []bool{true, false} {
				if mayBe(c, want) {
					ne := env.clone()
					if f.refine(ne, x.Cond, want) {
						f.edge(b, b.Succs[s], ne, st)
					}
				}
			}
		case *ssa.Return:
			o := &outcome{st: st}
			for _, r := range x.Results {
				o.rets = append(o.rets, f.val(env, r))
			}
			f.addOut(o)
		case *ssa.Panic:
			f.addOut(&outcome{st: st, panics: true})
		case *ssa.RunDefers:
		default:
			if v, ok := ins.(ssa.Value); ok {
				env[v] = topV
				continue
			}
			f.a.notes[fmt.Sprintf("instruction %T in %s", ins, fnName(f.fn))] = true
			f.bad = true
			return
		}
	}
}

func tupleV(t types.Type, rets []aval) aval {
	if _, ok := t.(*types.Tuple); ok {
		m := map[string]aval{}
		for i, r := range rets {
			m[strconv.Itoa(i)] = r
		}
		for _, r := range m {
			_ = r
		}
		return av(&atom{K: "struct", T: types.NewStruct(nil, nil), F: m})
	}
	if len(rets) == 1 {
		return rets[0]
	}
	return topV
}

func (f *frameX) addOut(o *outcome) {
	k := fmt.Sprintf("%v/%v%s", o.panics, o.st.fail, o.st.log)
	for _, r := range o.rets {
		a, b := nilness(r)
		k += fmt.Sprintf("/%v%v", a, b)
		if c, ok := constOf(r); ok && c.Kind() == constant.Bool {
			k += c.ExactString()
		}
	}
	old := f.out[k]
	if old == nil {
		f.out[k] = o
		return
	}
	n, _ := joinState(old.st, o.st)
	no := &outcome{st: n, panics: o.panics}
	for i, r := range o.rets {
		no.rets = append(no.rets, joinV(old.rets[i], r))
	}
	f.out[k] = no
}

// refine narrows a compared value on the chosen branch; false: the branch is impossible.
func (f *frameX) refine(env aenv, c ssa.Value, want bool) bool {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.refine(env, x.X, !want)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return true
		}
		w := want == (x.Op == token.EQL)
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if _, isC := p[0].(*ssa.Const); isC {
				continue
			}
			v, o := f.val(env, p[0]), f.val(env, p[1])
			if v.top || o.top || len(o.as) != 1 {
				continue
			}
			r := aval{as: map[string]*atom{}}
			for k, y := range v.as {
				for _, z := range o.as {
					e, n := equalA(y, z)
					if (w && e) || (!w && n) {
						r.as[k] = y
					}
				}
			}
			if len(r.as) == 0 {
				return false
			}
			env[p[0]] = r
		}
	}
	env[c] = avBool(want)
	return true
}

func subPtr(v aval, k string) aval {
	if v.top {
		return topV
	}
	r := aval{as: map[string]*atom{}}
	for _, x := range v.as {
		switch x.K {
		case "ptr":
			p := k
			if x.Path != "" {
				p = x.Path + "." + k
			}
			r = joinV(r, av(&atom{K: "ptr", Cell: x.Cell, Path: p}))
		case "sym":
			r = joinV(r, avSym("&"+x.S+"."+k))
		case "nil":
		default:
			return topV
		}
	}
	return r
}

func (f *frameX) indexAddr(env aenv, x *ssa.IndexAddr) aval {
	v := f.val(env, x.X)
	if v.top {
		return topV
	}
	idx := f.val(env, x.Index)
	r := aval{as: map[string]*atom{}}
	for _, y := range v.as {
		if y.K == "nil" {
			continue
		}
		if y.K != "ptr" && y.K != "slice" {
			return topV
		}
		k := "*"
		if c, ok := constOf(idx); ok {
			n, _ := constant.Int64Val(c)
			if y.K == "slice" && (n < 0 || int(n) >= y.N) {
				continue // would panic
			}
			k = strconv.FormatInt(n, 10)
		}
		p := k
		if y.Path != "" {
			p = y.Path + "." + k
		}
		r = joinV(r, av(&atom{K: "ptr", Cell: y.Cell, Path: p}))
	}
	return r
}

func (f *frameX) slice(env aenv, x *ssa.Slice) aval {
	v := f.val(env, x.X)
	if v.top {
		return topV
	}
	if x.Low != nil {
		if c, ok := constOf(f.val(env, x.Low)); !ok || c.ExactString() != "0" {
			return topV
		}
	}
	hi := -1
	if x.High != nil {
		c, ok := constOf(f.val(env, x.High))
		if !ok {
			return topV
		}
		n, _ := constant.Int64Val(c)
		hi = int(n)
	}
	r := aval{as: map[string]*atom{}}
	for _, y := range v.as {
		switch y.K {
		case "ptr":
			arr, ok := deref(x.X.Type()).Underlying().(*types.Array)
			if !ok {
				return topV
			}
			n := int(arr.Len())
			if hi >= 0 {
				n = hi
			}
			r = joinV(r, av(&atom{K: "slice", Cell: y.Cell, Path: y.Path, N: n}))
		case "slice":
			n := y.N
			if hi >= 0 {
				n = hi
			}
			r = joinV(r, av(&atom{K: "slice", Cell: y.Cell, Path: y.Path, N: n}))
		case "nil", "text":
			r = joinV(r, av(y))
		default:
			return topV
		}
	}
	return r
}

func (f *frameX) unop(env aenv, st *astate, x *ssa.UnOp) aval {
	v := f.val(env, x.X)
	switch x.Op {
	case token.MUL:
		return f.a.load(st, v)
	case token.NOT:
		return notV(v)
	}
	return topV
}

func (f *frameX) binop(env aenv, x *ssa.BinOp) aval {
	p, q := f.val(env, x.X), f.val(env, x.Y)
	switch x.Op {
	case token.EQL:
		return equalV(p, q)
	case token.NEQ:
		return notV(equalV(p, q))
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB:
		if p.top || q.top {
			break
		}
		r := aval{as: map[string]*atom{}}
		for _, y := range p.as {
			for _, z := range q.as {
				if y.K != "const" || z.K != "const" || y.C.Kind() != z.C.Kind() {
					if x.Op == token.ADD || x.Op == token.SUB {
						return topV
					}
					return anyBool
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					if y.C.Kind() == constant.String && x.Op == token.SUB {
						return topV
					}
					r = joinV(r, avConst(constant.BinaryOp(y.C, x.Op, z.C)))
				} else {
					r = joinV(r, avBool(constant.Compare(y.C, x.Op, z.C)))
				}
			}
		}
		return r
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return anyBool
	}
	return topV
}

func (f *frameX) convert(v aval, x *ssa.Convert) aval {
	if v.top {
		return topV
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isNum := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	if isStr(x.X.Type()) && isStr(x.Type()) || isNum(x.X.Type()) && isNum(x.Type()) ||
		isBytes(x.X.Type()) && isStr(x.Type()) || isStr(x.X.Type()) && isBytes(x.Type()) {
		return v
	}
	return topV
}

func (f *frameX) typeAssert(v aval, x *ssa.TypeAssert) aval {
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	val := aval{as: map[string]*atom{}}
	oks := aval{as: map[string]*atom{}}
	if v.top {
		if x.CommaOk {
			return tupleV(types.NewTuple(), []aval{topV, anyBool})
		}
		return topV
	}
	for _, y := range v.as {
		switch {
		case y.K == "box" && !toIface:
			if types.Identical(y.T, x.AssertedType) {
				val = joinV(val, av(y.In))
				oks = joinV(oks, avBool(true))
			} else {
				val = joinV(val, zeroV(x.AssertedType))
				oks = joinV(oks, avBool(false))
			}
		case y.K == "nil":
			val = joinV(val, zeroV(x.AssertedType))
			oks = joinV(oks, avBool(false))
		default:
			val = topV
			oks = anyBool
		}
	}
	if !x.CommaOk {
		return val
	}
	return tupleV(types.NewTuple(), []aval{val, oks})
}

func (f *frameX) lookup(env aenv, x *ssa.Lookup) aval {
	m, k := f.val(env, x.X), f.val(env, x.Index)
	val := aval{as: map[string]*atom{}}
	oks := aval{as: map[string]*atom{}}
	add := func(v aval, ok aval) { val, oks = joinV(val, v), joinV(oks, ok) }
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return topV
	}
	if m.top {
		add(topV, anyBool)
	}
	for _, y := range m.as {
		c, isC := constOf(k)
		switch {
		case y.K == "nil":
			add(zeroV(mt.Elem()), avBool(false))
		case y.K == "jobj" && isC && c.Kind() == constant.String:
			s := constant.StringVal(c)
			fs, known := y.J.Fields[s]
			if !known && y.J.Closed {
				fs, known = nil, true
			}
			switch {
			case !known:
				add(topV, anyBool)
			case fs == nil:
				add(zeroV(mt.Elem()), avBool(false))
			default:
				v, ok := f.a.decode(fs, mt.Elem(), zeroV(mt.Elem()), nil)
				if !ok {
					v = topV
				}
				add(v, avBool(true))
			}
		default:
			add(topV, anyBool)
		}
	}
	if !x.CommaOk {
		return val
	}
	return tupleV(types.NewTuple(), []aval{val, oks})
}

// decode: what a JSON decoder stores into a location of type t that holds cur.
// ok=false: the decoder reports an error. st is needed for values with storage.
func (a *Abs) decode(j *jshape, t types.Type, cur aval, st *astate) (aval, bool) {
	if j.Kind == "given" {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return av(&atom{K: "box", T: types.Typ[types.Invalid], In: &atom{K: "sym", S: "dec:" + j.Name}}), true
		}
		return avSym("dec:" + j.Name), true
	}
	if hasMethod(t, "UnmarshalJSON") || hasMethod(t, "UnmarshalJSONFrom") {
		return avSym(fmt.Sprintf("dec:%s as %s", j.Name, types.TypeString(t, nil))), !(j.Kind == "bool" || j.Kind == "number")
	}
	leaf := func() *atom {
		if j.Kind == "bool" && a.BoolVal != nil {
			return a.BoolVal
		}
		if j.HasStr {
			return &atom{K: "const", C: constant.MakeString(j.Str)}
		}
		return &atom{K: "sym", S: "dec:" + j.Name, J: j}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		switch j.Kind {
		case "null":
			return nilV, true
		case "bool":
			return av(&atom{K: "box", T: types.Typ[types.Bool], In: leaf()}), true
		case "string":
			return av(&atom{K: "box", T: types.Typ[types.String], In: leaf()}), true
		case "number":
			return av(&atom{K: "box", T: types.Typ[types.Float64], In: leaf()}), true
		case "object":
			return av(&atom{K: "box", T: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), In: &atom{K: "jobj", J: j}}), true
		case "array":
			anyT := types.NewInterfaceType(nil, nil)
			id := a.cell(fmt.Sprintf("json:%p", j))
			arr := av(&atom{K: "struct", T: types.NewArray(anyT, int64(len(j.Elems))), F: map[string]aval{}})
			for i, e := range j.Elems {
				v, _ := a.decode(e, anyT, nilV, st)
				arr = writePath(arr, []string{strconv.Itoa(i)}, v, false)
			}
			a.gcells[id] = arr
			return av(&atom{K: "box", T: types.NewSlice(anyT), In: &atom{K: "slice", Cell: id, N: len(j.Elems)}}), true
		}
		return topV, true
	case *types.Basic:
		switch {
		case j.Kind == "null":
			return zeroV(t), true
		case u.Info()&types.IsBoolean != 0:
			return av(leaf()), j.Kind == "bool"
		case u.Info()&types.IsString != 0:
			return av(leaf()), j.Kind == "string"
		}
		return topV, j.Kind == "number"
	case *types.Map:
		if j.Kind == "null" {
			return nilV, true
		}
		return av(&atom{K: "jobj", J: j}), j.Kind == "object"
	case *types.Slice:
		if j.Kind == "null" {
			return nilV, true
		}
		return avSym("dec:" + j.Name), j.Kind == "array"
	case *types.Pointer:
		if j.Kind == "null" {
			return nilV, true
		}
		v, ok := a.decode(j, u.Elem(), zeroV(u.Elem()), st)
		id := a.cell(fmt.Sprintf("json*:%p", j))
		a.gcells[id] = v
		return av(&atom{K: "ptr", Cell: id}), ok
	case *types.Struct:
		if j.Kind == "null" {
			return zeroV(t), true
		}
		if j.Kind != "object" {
			return topV, false
		}
		r := cur
		for i := 0; i < u.NumFields(); i++ {
			name, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if name == "-" {
				continue
			}
			if name == "" {
				name = u.Field(i).Name()
			}
			p := []string{strconv.Itoa(i)}
			old := readPath(r, p)
			fs, known := j.Fields[name]
			if !known && j.Closed {
				continue
			}
			switch {
			case !known:
				old = joinV(joinV(old, zeroV(u.Field(i).Type())), avSym("dec:"+name))
			case fs == nil:
				continue
			default:
				v, ok := a.decode(fs, u.Field(i).Type(), old, st)
				if !ok {
					return topV, false
				}
				old = v
			}
			r = writePath(r, p, old, false)
		}
		return r, true
	}
	return topV, true
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func isJSONFn(cp, name string) bool {
	return cp == "encoding/json."+name || strings.HasSuffix(cp, "/json."+name) || strings.HasSuffix(cp, "json/v2."+name)
}

func (f *frameX) call(env aenv, st *astate, x *ssa.Call) ([]*outcome, bool) {
	c := &x.Call
	var args []aval
	for _, y := range c.Args {
		args = append(args, f.val(env, y))
	}
	one := func(vs ...aval) ([]*outcome, bool) { return []*outcome{{st: st, rets: vs}}, true }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			v := args[0]
			if !v.top {
				r := aval{as: map[string]*atom{}}
				for _, y := range v.as {
					switch {
					case y.K == "slice":
						r = joinV(r, avConst(constant.MakeInt64(int64(y.N))))
					case y.K == "nil":
						r = joinV(r, avConst(constant.MakeInt64(0)))
					case y.K == "const" && y.C.Kind() == constant.String:
						r = joinV(r, avConst(constant.MakeInt64(int64(len(constant.StringVal(y.C))))))
					default:
						return one(topV)
					}
				}
				return one(r)
			}
			return one(topV)
		case "append":
			return one(f.appendV(st, x, args))
		case "ssa:wrapnilchk":
			return one(args[0])
		}
		f.a.havoc(st, args)
		return one(topV)
	}
	cp := calleePath(c)
	switch {
	case isJSONFn(cp, "Unmarshal"):
		return f.unmarshal(st, args, strings.HasPrefix(cp, "encoding/json"))
	case isJSONFn(cp, "Marshal"):
		v := args[0]
		if v.top {
			return one(topV, joinV(nilV, errV))
		}
		var outs []*outcome
		r := aval{as: map[string]*atom{}}
		for _, y := range v.as {
			in := y
			if in.K == "box" {
				in = in.In
			}
			switch {
			case in.K == "jobj":
				r = joinV(r, av(&atom{K: "text", J: in.J}))
			case in.K == "nil":
				r = joinV(r, av(&atom{K: "text", J: nullShape}))
			case in.K == "sym" && in.J != nil:
				r = joinV(r, av(&atom{K: "text", J: in.J}))
			default:
				r = topV
			}
			if r.top {
				break
			}
		}
		outs = append(outs, &outcome{st: st.clone(), rets: []aval{r, nilV}})
		bad := st.clone()
		bad.fail = true
		outs = append(outs, &outcome{st: bad, rets: []aval{nilV, errV}})
		return outs, true
	case cp == "fmt.Errorf" || cp == "errors.New":
		return one(errV)
	case cp == "reflect.DeepEqual" || cp == "bytes.Equal":
		return one(equalV(args[0], args[1]))
	case cp == "bytes.TrimSpace" || cp == "strings.TrimSpace" || cp == "bytes.Clone" || cp == "slices.Clone":
		return one(args[0])
	case cp == "slices.Contains":
		if args[0].top || args[1].top {
			return one(anyBool)
		}
		r := aval{as: map[string]*atom{}}
		for _, y := range args[0].as {
			switch y.K {
			case "nil":
				r = joinV(r, avBool(false))
			case "slice":
				yes, no := false, true
				for i := 0; i < y.N; i++ {
					e := f.a.load(st, av(&atom{K: "ptr", Cell: y.Cell, Path: pathJoin(y.Path, strconv.Itoa(i))}))
					q := equalV(e, args[1])
					yes = yes || mayBe(q, true)
					no = no && mayBe(q, false)
				}
				if yes {
					r = joinV(r, avBool(true))
				}
				if no {
					r = joinV(r, avBool(false))
				}
			default:
				r = anyBool
			}
		}
		return one(r)
	}
	// a body we can follow
	var fns []*atom
	if s := c.StaticCallee(); s != nil {
		fns = []*atom{{K: "fn", Fn: s}}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, y := range mc.Bindings {
				fns[0].B = append(fns[0].B, f.val(env, y))
			}
		}
	} else if !c.IsInvoke() {
		v := f.val(env, c.Value)
		if !v.top {
			for _, y := range v.as {
				if y.K != "fn" {
					fns = nil
					break
				}
				fns = append(fns, y)
			}
		}
	}
	var outs []*outcome
	for _, fa := range fns {
		fn := f.a.W.real(fa.Fn)
		if !isRepoPath(fnPkgPath(fn)) && fnPkgPath(fn) != "" || fn.Blocks == nil {
			outs = nil
			break
		}
		o, ok := f.a.run(fn, args, fa.B, st, fmt.Sprintf("%s>%p", f.ctx, x), f.depth+1)
		if !ok {
			outs = nil
			break
		}
		outs = append(outs, o...)
		if len(o) == 0 {
			return nil, true
		}
	}
	if outs != nil {
		return outs, true
	}
	f.a.notes["call of "+cp] = true
	f.a.havoc(st, args)
	n := 1
	if tp, ok := x.Type().(*types.Tuple); ok {
		n = tp.Len()
	}
	rets := make([]aval, n)
	for i := range rets {
		rets[i] = topV
	}
	return one(rets...)
}

var nullShape = &jshape{Kind: "null", Name: "null"}

func pathJoin(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (f *frameX) elems(st *astate, v aval) ([]aval, bool) {
	if v.top || len(v.as) != 1 {
		return nil, false
	}
	for _, y := range v.as {
		switch y.K {
		case "nil":
			return nil, true
		case "slice":
			var r []aval
			for i := 0; i < y.N; i++ {
				r = append(r, f.a.load(st, av(&atom{K: "ptr", Cell: y.Cell, Path: pathJoin(y.Path, strconv.Itoa(i))})))
			}
			return r, true
		}
	}
	return nil, false
}

func (f *frameX) appendV(st *astate, x *ssa.Call, args []aval) aval {
	if len(args) < 2 {
		return args[0]
	}
	p, ok1 := f.elems(st, args[0])
	q, ok2 := f.elems(st, args[1])
	if !ok1 || !ok2 {
		return topV
	}
	all := append(append([]aval{}, p...), q...)
	id := f.a.cell(fmt.Sprintf("%s@%p#%d", f.ctx, x, len(all)))
	el := x.Type().Underlying().(*types.Slice).Elem()
	arr := av(&atom{K: "struct", T: types.NewArray(el, int64(len(all))), F: map[string]aval{}})
	for i, e := range all {
		arr = writePath(arr, []string{strconv.Itoa(i)}, e, false)
	}
	st.mem[id] = arr
	return av(&atom{K: "slice", Cell: id, N: len(all)})
}

// unmarshal models decoding a described JSON text into the location of a pointer.
func (f *frameX) unmarshal(st *astate, args []aval, v1 bool) ([]*outcome, bool) {
	d, p := args[0], args[1]
	good, bad := st.clone(), st.clone()
	bad.fail = true
	if len(st.log) < 12 {
		good.log += "+"
		bad.log += "-"
	}
	if d.top || p.top || len(d.as) != 1 {
		f.a.havoc(good, []aval{p})
		f.a.havoc(bad, []aval{p})
		return []*outcome{{st: good, rets: []aval{nilV}}, {st: bad, rets: []aval{errV}}}, true
	}
	okAny, okAll := false, true
	for _, x := range d.as {
		if x.K != "text" {
			f.a.havoc(good, []aval{p})
			okAny, okAll = true, false
			continue
		}
		for _, y := range p.as {
			t := types.Type(nil)
			if y.K == "box" {
				t, y = deref(y.T), y.In
			}
			if y.K != "ptr" || t == nil {
				f.a.havoc(good, []aval{p})
				okAny, okAll = true, false
				continue
			}
			cur := f.a.load(good, av(y))
			v, ok := f.a.decode(x.J, t, cur, good)
			if v1 && x.J.Kind == "null" {
				if _, isB := t.Underlying().(*types.Basic); isB {
					v = cur
				}
			}
			if ok {
				okAny = true
				f.a.store(good, av(y), v)
			} else {
				okAll = false
			}
			f.a.store(bad, av(y), topV)
			// a decode of a valid text into a fitting type can still fail for values
			// that are only described as an object with unknown members
			if x.J.Kind == "given" || x.J.Kind == "object" && !x.J.Closed || hasMethod(t, "UnmarshalJSON") {
				okAll = false
			}
		}
	}
	var outs []*outcome
	if okAny {
		outs = append(outs, &outcome{st: good, rets: []aval{nilV}})
	}
	if !okAll {
		outs = append(outs, &outcome{st: bad, rets: []aval{errV}})
	}
	return outs, true
}

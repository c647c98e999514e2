package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Loops: every way round a loop has to change something that the loop's tests
// depend on. A way round is an acyclic path from the loop's header back to it; the
// tests on it are traced to what they read. If none of that is changed on the way
// (and everything read is deterministic), the next round takes the same way again.
// ---------------------------------------------------------------------------

type loopPath struct {
	L      *Loop
	Blocks []*ssa.BasicBlock
	Prev   map[*ssa.BasicBlock]*ssa.BasicBlock // the block each block is entered from
	Inner  []*Loop                             // nested loops run on the way
	Latch  *ssa.BasicBlock
}

// ways enumerates the acyclic ways round the loop, nested loops taken as one step.
func ways(l *Loop, all []*Loop, limit int) (out []*loopPath, trunc bool) {
	inner := map[*ssa.BasicBlock]*Loop{}
	for _, m := range all {
		if m != l && l.Body[m.Header] && m.Header != l.Header {
			inner[m.Header] = m
		}
	}
	steps := 0
	var path []*ssa.BasicBlock
	prev := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	var ins []*Loop
	var walk func(b *ssa.BasicBlock)
	emit := func(latch *ssa.BasicBlock) {
		if len(out) >= limit {
			trunc = true
			return
		}
		p := &loopPath{L: l, Blocks: append([]*ssa.BasicBlock{}, path...), Prev: map[*ssa.BasicBlock]*ssa.BasicBlock{}, Inner: append([]*Loop{}, ins...), Latch: latch}
		for k, v := range prev {
			p.Prev[k] = v
		}
		out = append(out, p)
	}
	step := func(from, to *ssa.BasicBlock) {
		if to == l.Header {
			emit(from)
			return
		}
		if !l.Body[to] {
			return
		}
		if _, on := prev[to]; on {
			return
		}
		prev[to] = from
		walk(to)
		delete(prev, to)
	}
	walk = func(b *ssa.BasicBlock) {
		steps++
		if steps > 60000 {
			trunc = true
			return
		}
		if m := inner[b]; m != nil {
			ins = append(ins, m)
			var bs []*ssa.BasicBlock
			for x := range m.Body {
				bs = append(bs, x)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			for _, x := range bs {
				for _, s := range x.Succs {
					if !m.Body[s] {
						step(x, s)
					}
				}
			}
			ins = ins[:len(ins)-1]
			return
		}
		path = append(path, b)
		for _, s := range b.Succs {
			step(b, s)
		}
		path = path[:len(path)-1]
	}
	walk(l.Header)
	return
}

func (p *loopPath) innerOf(b *ssa.BasicBlock) *Loop {
	for _, m := range p.Inner {
		if m.Body[b] {
			return m
		}
	}
	return nil
}

// pick: the value a phi takes on this way round.
func (p *loopPath) pick(x *ssa.Phi) ssa.Value {
	b := x.Block()
	if b == p.L.Header || p.innerOf(b) != nil {
		return nil
	}
	pr, ok := p.Prev[b]
	if !ok {
		return nil
	}
	for i, q := range b.Preds {
		if q == pr {
			return x.Edges[i]
		}
	}
	return nil
}

// next: the value a phi of the header has on the next round.
func (p *loopPath) next(x *ssa.Phi) ssa.Value {
	for i, q := range x.Block().Preds {
		if q == p.Latch {
			return x.Edges[i]
		}
	}
	return nil
}

// ident follows a value to the one it is certain to equal.
func (a *recur) ident(p *loopPath, v ssa.Value, d int) ssa.Value {
	if d > 30 {
		return v
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if q := p.pick(x); q != nil {
			return a.ident(p, q, d+1)
		}
	case *ssa.ChangeType:
		return a.ident(p, x.X, d+1)
	case *ssa.BinOp:
		if k, ok := constInt(x.Y); ok && k == 0 && (x.Op == token.ADD || x.Op == token.SUB) {
			return a.ident(p, x.X, d+1)
		}
	case *ssa.Slice:
		if x.High == nil && x.Max == nil {
			if k, ok := constInt(x.Low); x.Low == nil || ok && k == 0 {
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					return a.ident(p, x.X, d+1)
				}
			}
		}
	case *ssa.Call:
		// the step that leaves out parentheses and the like leaves out nothing the second time
		if i, cl, ok := a.accessor(&x.Call); ok && cl == rcSame && isNodeish(x.Call.Args[i].Type()) && isNodeish(x.Type()) {
			return a.ident(p, x.Call.Args[i], d+1)
		}
	case *ssa.FieldAddr:
		// the node inside the struct of its kind
		if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok && st.Field(x.Field).Embedded() && isNodeish(x.X.Type()) {
			return a.ident(p, x.X, d+1)
		}
	}
	return v
}

func (p *loopPath) instrs(f func(ssa.Instruction)) {
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, m := range p.Inner {
		for b := range m.Body {
			if done[b] {
				continue
			}
			done[b] = true
			for _, in := range b.Instrs {
				f(in)
			}
		}
	}
}

// ---- purity -----------------------------------------------------------------

// pureFn: running the function changes nothing that existed before.
func (a *recur) pureFn(f *ssa.Function, d int) bool {
	if r, ok := a.pure[f]; ok {
		return r
	}
	if d > 12 {
		return false
	}
	a.pure[f] = true // optimistic while being worked out: recursion alone changes nothing
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ok = ok && localAddr(x.Addr, 0)
			case *ssa.MapUpdate:
				_, loc := x.Map.(*ssa.MakeMap)
				ok = ok && loc
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				ok = false
			case *ssa.UnOp:
				ok = ok && x.Op != token.ARROW
			case *ssa.Call:
				ok = ok && a.pureCall(&x.Call, d+1)
			}
		}
	}
	a.pure[f] = ok
	return ok
}

// allocOf: the variable that the address is a part of.
func allocOf(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func localAddr(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X, d+1)
	case *ssa.IndexAddr:
		return localAddr(x.X, d+1)
	case *ssa.Slice:
		return localAddr(x.X, d+1)
	}
	return false
}

func (a *recur) pureCall(c *ssa.CallCommon, d int) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear", "delete", "close":
			return false
		}
		return true
	}
	for _, v := range c.Args {
		if isFuncT(v.Type()) {
			fs := a.cellFns(v, 0)
			if len(fs) == 0 {
				return false
			}
			for _, f := range fs {
				if w := isBoundWrapper(f); w != nil {
					f = w
				}
				if !a.pureFn(f, d+1) {
					return false
				}
			}
		}
	}
	if f := c.StaticCallee(); f != nil && isRepoPath(fnPkgPath(f)) && !a.w.isLinked(f) && len(f.Blocks) > 0 {
		return a.pureFn(f, d+1)
	}
	if o := calleeObj(c); o != nil && o.Pkg() != nil {
		pkg := o.Pkg().Path()
		if strings.HasPrefix(pkg, shimPrefix) || isTsgoPath(pkg) {
			for _, v := range c.Args {
				if n := namedOf(deref(v.Type())); n != nil && n.Obj().Name() == "Scanner" {
					return strings.HasPrefix(o.Name(), "Token") || strings.HasPrefix(o.Name(), "HasPreceding")
				}
			}
			if strings.HasSuffix(pkg, "/vfs") {
				switch o.Name() {
				case "ReadFile", "FileExists", "DirectoryExists", "Stat", "GetAccessibleEntries", "Realpath", "UseCaseSensitiveFileNames":
					return true
				}
				return false
			}
			if o.Type().(*types.Signature).Results().Len() == 0 {
				return false
			}
			return true
		}
		if strings.HasSuffix(pkg, "/json") {
			return o.Name() == "Unmarshal" // into a variable: what is asked of it is looked up there
		}
		switch pkg {
		case "strings", "unicode", "unicode/utf8", "unicode/utf16", "strconv", "path", "path/filepath", "math", "cmp", "slices", "errors", "bytes":
			if rv := o.Type().(*types.Signature).Recv(); rv != nil {
				return false
			}
			if pkg == "slices" {
				return strings.HasPrefix(o.Name(), "Contains") || strings.HasPrefix(o.Name(), "Index") || o.Name() == "Equal"
			}
			return true
		case "fmt":
			return strings.HasPrefix(o.Name(), "Sprint") || o.Name() == "Errorf"
		}
		return false
	}
	if !c.IsInvoke() {
		if _, ok := c.Value.(*ssa.Parameter); ok && d > 0 {
			return true // judged where the function is handed over
		}
		fs := a.cellFns(c.Value, 0)
		for _, f := range fs {
			if w := isBoundWrapper(f); w != nil {
				f = w
			}
			if !isRepoPath(fnPkgPath(f)) || len(f.Blocks) == 0 || !a.pureFn(f, d+1) {
				return false
			}
		}
		return len(fs) > 0
	}
	return false
}

// ---- what the tests depend on --------------------------------------------------

type loopDeps struct {
	a      *recur
	p      *loopPath
	phis   map[*ssa.Phi]bool
	mem    map[string]bool
	moves  bool // something that can differ from round to round
	why    string
	seen   map[ssa.Value]bool
	innerC map[*Loop]bool
}

func (d *loopDeps) change(w string) {
	if !d.moves {
		d.moves, d.why = true, w
	}
}

func (d *loopDeps) readMem(v ssa.Value) {
	if isNilConst(v) {
		return
	}
	rs := d.a.roots(v, 0)
	if len(rs) == 0 {
		d.change("memory")
	}
	for k := range rs {
		d.mem[k] = true
	}
}

// fixedMemory: the syntax tree and the types do not change while rules run.
func fixedMemory(addr ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(deref(x.X.Type())); n != nil && n.Obj().Pkg() != nil && isTsgoPath(n.Obj().Pkg().Path()) && n.Obj().Name() != "Scanner" {
				return true
			}
			addr = x.X
		case *ssa.IndexAddr:
			u, ok := x.X.(*ssa.UnOp)
			if !ok {
				// a list handed out by the tree
				if c, ok := x.X.(*ssa.Call); ok {
					if o := calleeObj(&c.Call); o != nil && o.Pkg() != nil && (strings.HasPrefix(o.Pkg().Path(), shimPrefix) || isTsgoPath(o.Pkg().Path())) {
						return true
					}
				}
				return false
			}
			addr = u.X
		default:
			return false
		}
	}
	return false
}

func (d *loopDeps) visit(v ssa.Value) {
	if d.moves || d.seen[v] {
		return
	}
	d.seen[v] = true
	l := d.p.L
	in, isIn := v.(ssa.Instruction)
	if isIn && !l.Body[in.Block()] {
		return // fixed before the loop
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
	case *ssa.Phi:
		if x.Block() == l.Header {
			d.phis[x] = true
			return
		}
		if q := d.p.pick(x); q != nil {
			d.visit(q)
			return
		}
		m := d.p.innerOf(x.Block())
		if m == nil {
			d.change("phi")
			return
		}
		for _, e := range x.Edges {
			d.visit(e)
		}
	case *ssa.Next:
		d.change("map order")
	case *ssa.Select:
		d.change("select")
	case *ssa.UnOp:
		switch x.Op {
		case token.ARROW:
			d.change("receive")
		case token.MUL:
			d.visit(x.X)
			if !fixedMemory(x.X) {
				d.readMem(x.X)
			}
		default:
			d.visit(x.X)
		}
	case *ssa.Alloc:
		// made anew each round: what is put in it
		for _, u := range *x.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr == x {
					d.visit(s.Val)
				}
			case *ssa.FieldAddr:
				d.storedIn(s)
			case *ssa.IndexAddr:
				d.storedIn(s)
			}
		}
	case *ssa.Lookup:
		d.visit(x.X)
		d.visit(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			d.readMem(x.X)
		}
	case *ssa.Call:
		if !d.a.pureCall(&x.Call, 0) {
			d.change("call that may change something: " + calleePath(&x.Call))
			return
		}
		if !x.Call.IsInvoke() {
			d.visit(x.Call.Value)
		} else {
			d.visit(x.Call.Value)
		}
		bi, _ := x.Call.Value.(*ssa.Builtin)
		for _, q := range x.Call.Args {
			d.visit(q)
			if _, sl := q.Type().Underlying().(*types.Slice); sl && bi != nil && (bi.Name() == "len" || bi.Name() == "cap") {
				continue // part of the value
			}
			if mutableArg(q.Type()) {
				d.readMem(q)
			}
		}
		// what a function of the program reads besides its arguments
		if !x.Call.IsInvoke() {
			fs := d.a.cellFns(x.Call.Value, 0)
			for _, f := range fs {
				if isRepoPath(fnPkgPath(f)) {
					for _, r := range d.a.reads(f, 0) {
						d.mem[r] = true
					}
				}
			}
		}
	case *ssa.MakeClosure:
		for _, q := range x.Bindings {
			d.visit(q)
			d.readMem(q)
		}
	default:
		if isIn {
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil {
					d.visit(*o)
				}
			}
		} else {
			d.change(fmt.Sprintf("%T", v))
		}
	}
}

func (d *loopDeps) storedIn(addr ssa.Value) {
	for _, u := range *addr.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == addr {
			d.visit(s.Val)
		}
	}
}

func mutableArg(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		n := namedOf(u)
		return n == nil || n.Obj().Pkg() == nil || !isTsgoPath(n.Obj().Pkg().Path()) || n.Obj().Name() == "Scanner"
	case *types.Slice:
		return !isNodeish(t)
	case *types.Interface:
		return true
	}
	return false
}

// reads: the shared variables a function (with what it calls) reads.
func (a *recur) reads(f *ssa.Function, d int) []string {
	var out []string
	if d > 6 || a.busy[f] {
		return nil
	}
	a.busy[f] = true
	defer delete(a.busy, f)
	add := func(v ssa.Value) {
		for k := range a.roots(v, 0) {
			out = append(out, k)
		}
	}
	for _, fv := range f.FreeVars {
		add(fv)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
					add(g)
				}
			case *ssa.Call:
				if !x.Call.IsInvoke() {
					for _, g := range a.cellFns(x.Call.Value, 0) {
						if isRepoPath(fnPkgPath(g)) {
							out = append(out, a.reads(g, d+1)...)
						}
					}
				}
			}
		}
	}
	return out
}

func overlapRoot(k string, m map[string]bool) bool {
	for n := range m {
		if k == n || strings.HasPrefix(k, n+".") || strings.HasPrefix(n, k+".") {
			return true
		}
	}
	return false
}

// standsStill: the way round changes nothing its own tests depend on. The string
// says what makes it move on, for the record.
func (a *recur) standsStill(p *loopPath) (bool, string) {
	d := &loopDeps{a: a, p: p, phis: map[*ssa.Phi]bool{}, mem: map[string]bool{}, seen: map[ssa.Value]bool{}}
	for _, b := range p.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			d.visit(i.Cond)
		}
		if d.moves {
			return false, d.why
		}
	}
	for _, m := range p.Inner {
		for b := range m.Body {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.If:
					d.visit(x.Cond)
				case *ssa.Return, *ssa.Panic:
				}
			}
		}
	}
	if d.moves {
		return false, d.why
	}
	for x := range d.phis {
		n := p.next(x)
		if n == nil || a.ident(p, n, 0) != ssa.Value(x) && !a.settled(p, x, n) {
			return false, "moves " + x.Comment
		}
	}
	if !a.possible(p) {
		return false, "not possible"
	}
	if len(d.mem) > 0 {
		hit := a.changes(p, d.mem)
		if hit != "" {
			return false, "what the tests read may change: " + hit
		}
	}
	return true, ""
}

// changes: what on the way may change the memory (by root).
func (a *recur) changes(p *loopPath, mem map[string]bool) string {
	hit := ""
	p.instrs(func(in ssa.Instruction) {
		if hit != "" {
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			if al := allocOf(x.Addr); al != nil && p.L.Body[al.Block()] {
				return
			}
			for k := range a.roots(x.Addr, 0) {
				if overlapRoot(k, mem) {
					hit = "store"
				}
			}
		case *ssa.MapUpdate:
			for k := range a.roots(x.Map, 0) {
				if overlapRoot(k, mem) {
					hit = "map update"
				}
			}
		case *ssa.Send, *ssa.Select, *ssa.Go:
			hit = "other threads"
		case *ssa.Call:
			if !a.pureCall(&x.Call, 0) {
				hit = "call"
			}
		}
	})
	return hit
}

// settled: the way gives the variable a value that is the same in every round, and the tests do not
// tell that value from the one it had.
func (a *recur) settled(p *loopPath, x *ssa.Phi, n ssa.Value) bool {
	n = a.ident(p, n, 0)
	if _, ok := n.(*ssa.Const); ok {
		return false
	}
	d := &loopDeps{a: a, p: p, phis: map[*ssa.Phi]bool{}, mem: map[string]bool{}, seen: map[ssa.Value]bool{}}
	d.visit(n)
	if d.moves || len(d.phis) > 0 || len(d.mem) > 0 {
		return false
	}
	for _, b := range p.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			l, r := a.ident(p, bo.X, 0), a.ident(p, bo.Y, 0)
			if l == ssa.Value(x) && (r == n || sameExpr(r, n, 0)) || r == ssa.Value(x) && (l == n || sameExpr(l, n, 0)) {
				return false // compared with it
			}
		}
	}
	return true
}

// sameExpr: two pieces of code that read the same.
func sameExpr(u, v ssa.Value, d int) bool {
	if u == v {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := u.(type) {
	case *ssa.UnOp:
		y, ok := v.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := v.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.Call:
		y, ok := v.(*ssa.Call)
		if !ok || len(x.Call.Args) != len(y.Call.Args) || calleePath(&x.Call) != calleePath(&y.Call) {
			return false
		}
		for i := range x.Call.Args {
			if !sameExpr(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// fixedExits: every test that can end the loop is made in every round and asks only what never changes.
func (a *recur) fixedExits(l *Loop, ps []*loopPath, trunc bool) bool {
	n := 0
	for b := range l.Body {
		for _, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			n++
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || trunc {
				return false
			}
			for _, p := range ps {
				on := false
				for _, x := range p.Blocks {
					on = on || x == b
				}
				if !on {
					return false
				}
				d := &loopDeps{a: a, p: p, phis: map[*ssa.Phi]bool{}, mem: map[string]bool{}, seen: map[ssa.Value]bool{}}
				d.visit(iff.Cond)
				if d.moves {
					return false
				}
				for x := range d.phis {
					if q := p.next(x); q == nil || a.ident(p, q, 0) != ssa.Value(x) {
						return false
					}
				}
				if len(d.mem) > 0 && a.changes(p, d.mem) != "" {
					return false
				}
			}
		}
	}
	for b := range l.Body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				return false
			}
		}
	}
	return n > 0 && len(ps) > 0
}

// ---- directions ----------------------------------------------------------------

// step: how a phi of the header moves on this way round.
func (a *recur) step(p *loopPath, x *ssa.Phi) relSet {
	n := p.next(x)
	if n == nil {
		return relSet{}
	}
	a.leaf, a.path = map[ssa.Value]bool{}, p
	for _, in := range p.L.Header.Instrs {
		if y, ok := in.(*ssa.Phi); ok {
			a.leaf[y] = true
		}
	}
	defer func() { a.leaf, a.path = nil, nil }()
	return a.classOf(n)
}

func (s relSet) only(in ssa.Value, c relClass) bool {
	if len(s) != 1 {
		return false
	}
	return s[rel{in, c}]
}

// dirStep: the new value is the directory that contains the old one.
func (a *recur) dirStep(p *loopPath, x *ssa.Phi) *ssa.Call {
	n := p.next(x)
	for i := 0; i < 20 && n != nil; i++ {
		if q, ok := n.(*ssa.Phi); ok && q != x {
			if n = p.pick(q); n != nil {
				continue
			}
			return nil
		}
		break
	}
	c, ok := n.(*ssa.Call)
	if !ok {
		return nil
	}
	o := calleeObj(&c.Call)
	if o == nil || o.Pkg() == nil || len(c.Call.Args) == 0 || a.ident(p, c.Call.Args[0], 0) != ssa.Value(x) {
		return nil
	}
	switch o.Name() {
	case "GetDirectoryPath", "Dir":
		return c
	}
	return nil
}

// comparesStep: some test on the way compares the new value with the old.
func (a *recur) comparesStep(p *loopPath, x *ssa.Phi, c *ssa.Call) bool {
	var eq func(v ssa.Value, d int) bool
	eq = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch y := v.(type) {
		case *ssa.UnOp:
			return eq(y.X, d+1)
		case *ssa.Phi:
			for _, e := range y.Edges {
				if eq(e, d+1) {
					return true
				}
			}
		case *ssa.BinOp:
			var hasNew, hasOld bool
			for _, o := range []ssa.Value{y.X, y.Y} {
				if q := lenArg(o); q != nil {
					o = q
				}
				o = a.ident(p, o, 0)
				hasNew = hasNew || o == ssa.Value(c) || sameDir(o, c)
				hasOld = hasOld || o == ssa.Value(x)
			}
			return hasNew && hasOld || eq(y.X, d+1) || eq(y.Y, d+1)
		}
		return false
	}
	for _, b := range p.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && eq(i.Cond, 0) {
			return true
		}
	}
	return false
}

func sameDir(v ssa.Value, c *ssa.Call) bool {
	k, ok := v.(*ssa.Call)
	if !ok || len(k.Call.Args) != len(c.Call.Args) || calleePath(&k.Call) != calleePath(&c.Call) {
		return false
	}
	for i := range k.Call.Args {
		if k.Call.Args[i] != c.Call.Args[i] {
			return false
		}
	}
	return true
}

// indexStep: the new value starts where a search of the old one found something, with nothing added.
func (a *recur) indexStep(p *loopPath, x *ssa.Phi) bool {
	n := p.next(x)
	for i := 0; i < 20; i++ {
		if q, ok := n.(*ssa.Phi); ok && q != x {
			if r := p.pick(q); r != nil {
				n = r
				continue
			}
		}
		break
	}
	found := func(v ssa.Value, in ssa.Value) bool {
		v = a.ident(p, v, 0)
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		o := calleeObj(&c.Call)
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "strings" && o.Pkg().Path() != "bytes" || !strings.HasPrefix(o.Name(), "Index") {
			return false
		}
		arg := a.ident(p, c.Call.Args[0], 0)
		if in == nil {
			// searched from x on
			s, ok := arg.(*ssa.Slice)
			return ok && s.Low != nil && a.ident(p, s.Low, 0) == ssa.Value(x)
		}
		return arg == in
	}
	switch y := n.(type) {
	case *ssa.Slice:
		return y.Low != nil && y.High == nil && a.ident(p, y.X, 0) == ssa.Value(x) && found(y.Low, x)
	case *ssa.BinOp:
		if y.Op == token.ADD {
			return a.ident(p, y.X, 0) == ssa.Value(x) && found(y.Y, nil) || a.ident(p, y.Y, 0) == ssa.Value(x) && found(y.X, nil)
		}
	}
	return false
}

// ---- worklists -----------------------------------------------------------------

// A worklist is a collection that the loop's test asks for emptiness and that the loop
// replaces or extends with things found from its own elements.
func (a *recur) worklist(l *Loop, ps []*loopPath) (ssa.Value, []ssa.Instruction) {
	var list ssa.Value
	var adds []ssa.Instruction
	for _, in := range l.Header.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		coll := collection(x.Type())
		if !coll || !a.tested(l, x) {
			continue
		}
		// what is put into the next value
		news := map[ssa.Value]bool{}
		for _, p := range ps {
			if n := p.next(x); n != nil && n != ssa.Value(x) {
				a.sources(l, n, news, 0)
			}
		}
		for n := range news {
			switch y := n.(type) {
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if dependsOn(y.Call.Args[1], x, 0, map[ssa.Value]bool{}) {
						adds = append(adds, y)
						list = x
					}
					continue
				}
				// a collection made in the loop: calls that hand it something
				for _, u := range *y.Referrers() {
					if c, ok := u.(ssa.CallInstruction); ok && len(c.Common().Args) > 1 && c.Common().Args[0] == ssa.Value(y) && !a.pureCall(c.Common(), 0) {
						adds = append(adds, u)
						list = x
					}
				}
			}
		}
	}
	return list, adds
}

func collection(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		n := namedOf(u)
		return n != nil && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "collections")
	}
	return false
}

func (a *recur) tested(l *Loop, x *ssa.Phi) bool {
	for _, u := range *x.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok || !l.Body[c.Block()] {
			continue
		}
		for _, r := range *c.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok {
				for _, q := range *b.Referrers() {
					if i, ok := q.(*ssa.If); ok {
						for _, s := range i.Block().Succs {
							if !l.Body[s] {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (a *recur) sources(l *Loop, v ssa.Value, out map[ssa.Value]bool, d int) {
	in, ok := v.(ssa.Instruction)
	if d > 20 || out[v] || !ok || !l.Body[in.Block()] {
		return
	}
	out[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.sources(l, e, out, d+1)
		}
	case *ssa.Slice:
		a.sources(l, x.X, out, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a.sources(l, x.Call.Args[0], out, d+1)
		}
	}
}

// guarded: the instruction is reached in the loop only past a test of a history that is
// older than the loop and that every way to the instruction extends.
func (a *recur) guarded(l *Loop, in ssa.Instruction) bool {
	f := l.Fn
	old := func(k string) bool {
		// local to one round: a history has to be older
		for b := range l.Body {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok && b != l.Header && (k == fmt.Sprintf("%p:%s", f, v.Name()) || strings.HasPrefix(k, fmt.Sprintf("%p:%s.", f, v.Name()))) {
					return false
				}
			}
		}
		return true
	}
	sb := in.Block()
	for b := range l.Body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(sb) || b == sb {
			continue
		}
		cut := false
		for _, s := range b.Succs {
			reach := map[*ssa.BasicBlock]bool{}
			st := []*ssa.BasicBlock{s}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if reach[x] || x == b || !l.Body[x] || x == l.Header {
					continue
				}
				reach[x] = true
				st = append(st, x.Succs...)
			}
			cut = cut || !reach[sb]
		}
		if !cut {
			continue
		}
		for h := range a.asks(iff.Cond) {
			if !old(h) {
				continue
			}
			if a.onEveryFrom(l, in, func(k string) bool { return k == h || strings.HasPrefix(k, h+".") }) {
				return true
			}
		}
	}
	return false
}

// onEveryFrom: every path from the loop's header to the instruction extends h.
func (a *recur) onEveryFrom(l *Loop, site ssa.Instruction, h func(string) bool) bool {
	sb := site.Block()
	ext := func(x *ssa.BasicBlock) bool {
		for _, in := range x.Instrs {
			if x == sb && after(in, site) {
				return false
			}
			for k := range a.extensions(in, 0) {
				if h(k) {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{l.Header}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || !l.Body[x] || ext(x) {
			continue
		}
		seen[x] = true
		if x == sb {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

// ---- verdicts --------------------------------------------------------------------

type loopVerdict struct {
	L     *Loop
	Kind  string
	Bad   string
	BadAt token.Pos
	Note  string
}

func (l *Loop) pos() token.Pos {
	for _, in := range l.Header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.Body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best == token.NoPos || in.Pos() < best) {
				best = in.Pos()
			}
		}
	}
	return best
}

func (a *recur) judgeLoop(l *Loop, all []*Loop, iter *Iter) *loopVerdict {
	v := &loopVerdict{L: l}
	ps, trunc := ways(l, all, 4000)
	if iter != nil && iter.Kind != "slice" {
		v.Kind = "iteration over a " + iter.Kind
		return v
	}
	// worklists
	if list, adds := a.worklist(l, ps); list != nil {
		v.Kind = "worklist"
		for _, in := range adds {
			if !a.findsParts(l, in) && !a.guarded(l, in) {
				v.Bad, v.BadAt = "what is found from the elements of the list is put on the list again without asking whether it has been seen", in.Pos()
				return v
			}
		}
	}
	if iter != nil {
		if v.Kind == "" {
			v.Kind = "iteration"
		}
		return v
	}
	note := map[string]bool{}
	for _, p := range ps {
		st, why := a.standsStill(p)
		if st {
			v.Bad = "a way round the loop changes nothing that its tests depend on (" + a.wayDesc(p) + ")"
			v.BadAt = l.pos()
			return v
		}
		note[why] = true
	}
	if a.fixedExits(l, ps, trunc) {
		v.Bad, v.BadAt = "the tests that end the loop ask only what does not change in it", l.pos()
		return v
	}
	// directions
	for _, in := range l.Header.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		up, down, cyc, other := 0, 0, 0, 0
		for _, p := range ps {
			s := a.step(p, x)
			switch {
			case s.only(x, rcUp):
				up++
			case s.only(x, rcDown):
				down++
			case s.only(x, rcCyc):
				cyc++
			case s.only(x, rcSame):
			default:
				other++
			}
			if c := a.dirStep(p, x); c != nil && !a.comparesStep(p, x, c) {
				v.Bad, v.BadAt = "the loop goes to the containing directory without comparing it with the directory it comes from: the root contains itself", c.Pos()
				return v
			}
			if a.indexStep(p, x) {
				v.Bad, v.BadAt = "the loop goes on exactly where the search found something: it finds the same again", l.pos()
				return v
			}
		}
		if isNodeish(x.Type()) && up > 0 && down > 0 {
			v.Bad, v.BadAt = "the loop goes from a node to its parent on one way and to a child on another", l.pos()
			return v
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && other == 0 && cyc == 0 {
			if w := a.wrongWay(l, x, up, down); w != "" {
				v.Bad, v.BadAt = w, l.pos()
				return v
			}
		}
		if cyc > 0 && up+down+other == 0 && isTsgoPtr(x.Type()) && a.onlyMover(l, ps, x) {
			v.Bad, v.BadAt = "the loop follows a relation that can lead back, and does not remember where it has been", l.pos()
			return v
		}
	}
	if v.Kind == "" {
		v.Kind = "moves on every way"
	}
	if trunc {
		v.Kind = "moves on the ways looked at"
	}
	var ns []string
	for k := range note {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	v.Note = strings.Join(ns, "; ")
	return v
}

func isTsgoPtr(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && isTsgoPath(n.Obj().Pkg().Path())
}

// onlyMover: nothing else that the loop's tests depend on changes.
func (a *recur) onlyMover(l *Loop, ps []*loopPath, x *ssa.Phi) bool {
	for _, p := range ps {
		d := &loopDeps{a: a, p: p, phis: map[*ssa.Phi]bool{}, mem: map[string]bool{}, seen: map[ssa.Value]bool{}}
		for _, b := range p.Blocks {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				d.visit(i.Cond)
			}
		}
		if d.moves || len(d.mem) > 0 && a.changes(p, d.mem) != "" {
			return false
		}
		for y := range d.phis {
			if y == x {
				continue
			}
			if n := p.next(y); n == nil || a.ident(p, n, 0) != ssa.Value(y) {
				return false
			}
		}
	}
	return len(ps) > 0
}

// findsParts: what is added are parts of nodes, which end.
func (a *recur) findsParts(l *Loop, in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) < 2 {
		return false
	}
	a.leaf = map[ssa.Value]bool{}
	for _, h := range l.Header.Instrs {
		if y, ok := h.(*ssa.Phi); ok {
			a.leaf[y] = true
		}
	}
	defer func() { a.leaf = nil }()
	s := a.classOf(c.Common().Args[1])
	for q := range s {
		if q.C != rcDown {
			return false
		}
	}
	return len(s) > 0
}

// wrongWay: the only test that ends the loop waits for a bound the counter moves away from.
func (a *recur) wrongWay(l *Loop, x *ssa.Phi, up, down int) string {
	if up > 0 && down > 0 || up+down == 0 {
		return ""
	}
	exits := 0
	bad := ""
	for b := range l.Body {
		for si, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			exits++
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return ""
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				return ""
			}
			op, o := bo.Op, bo.Y
			if bo.X != ssa.Value(x) {
				if bo.Y != ssa.Value(x) {
					return ""
				}
				o = bo.X
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			if i, ok := o.(ssa.Instruction); ok && l.Body[i.Block()] && lenArg(o) == nil {
				return ""
			}
			if si == 1 { // left when the test is false
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[op]
			}
			if (op == token.GEQ || op == token.GTR) && down > 0 || (op == token.LSS || op == token.LEQ) && up > 0 {
				bad = "the counter moves away from the bound that ends the loop"
			} else {
				return ""
			}
		}
	}
	if exits == 0 {
		return ""
	}
	return bad
}

func (a *recur) wayDesc(p *loopPath) string {
	last := token.NoPos
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				last = in.Pos()
			}
		}
	}
	return "back from " + a.w.pos(last)
}

// dependsOn: the value is worked out from x.
func dependsOn(v ssa.Value, x ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if v == x {
		return true
	}
	if d > 40 || seen[v] {
		return false
	}
	seen[v] = true
	if al, ok := v.(*ssa.Alloc); ok {
		for _, u := range *al.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr == al && dependsOn(s.Val, x, d+1, seen) {
					return true
				}
			case *ssa.IndexAddr:
				for _, q := range *s.Referrers() {
					if st, ok := q.(*ssa.Store); ok && dependsOn(st.Val, x, d+1, seen) {
						return true
					}
				}
			case *ssa.FieldAddr:
				for _, q := range *s.Referrers() {
					if st, ok := q.(*ssa.Store); ok && dependsOn(st.Val, x, d+1, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	var ops [12]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil && dependsOn(*o, x, d+1, seen) {
			return true
		}
	}
	return false
}

// possible: the outcomes of the tests on the way do not contradict each other.
func (a *recur) possible(p *loopPath) bool {
	yes := map[ssa.Value]map[string]bool{} // values known to equal a constant
	no := map[ssa.Value]map[string]bool{}
	out := map[ssa.Value]bool{}
	rest := map[ssa.Value]*types.Named{}
	for i, b := range p.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		to := p.L.Header
		if i+1 < len(p.Blocks) {
			to = p.Blocks[i+1]
		}
		if p.innerOf(to) != nil || b.Succs[0] == b.Succs[1] {
			continue
		}
		if b.Succs[0] != to && b.Succs[1] != to {
			continue
		}
		val := b.Succs[0] == to
		c := iff.Cond
		for {
			if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
				c, val = u.X, !val
				continue
			}
			break
		}
		if q, ok := c.(*ssa.Phi); ok {
			c = a.ident(p, q, 0)
			if k, ok := c.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != val {
					return false
				}
				continue
			}
		}
		if old, ok := out[c]; ok && old != val {
			return false
		}
		out[c] = val
		bo, ok := c.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		x, k := bo.X, bo.Y
		if isConst(x) {
			x, k = k, x
		}
		kc, ok := k.(*ssa.Const)
		if !ok {
			continue
		}
		x = a.ident(p, x, 0)
		ks := kc.String()
		if kc.Value != nil {
			ks = kc.Value.ExactString()
		}
		if (bo.Op == token.EQL) == val {
			if yes[x] == nil {
				yes[x] = map[string]bool{}
			}
			yes[x][ks] = true
		} else {
			if no[x] == nil {
				no[x] = map[string]bool{}
			}
			no[x][ks] = true
		}
		if n := namedOf(x.Type()); n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
			rest[x] = n
		}
	}
	for x, m := range yes {
		if len(m) > 1 {
			return false
		}
		for k := range m {
			if no[x][k] {
				return false
			}
		}
	}
	for x, n := range rest {
		// one of the values declared for the type
		all, any := true, false
		sc := n.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
				any = true
				all = all && no[x][c.Val().ExactString()]
			}
		}
		if any && all {
			return false
		}
	}
	return true
}

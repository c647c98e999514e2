package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Workers never share unsynchronised mutable state", "effect analysis of package-level and captured state, escape/ownership of memory written by goroutines (lockset, fork-join and hand-over order), exclusive type checkers, read-only syntax trees", checkC08)
}

// ---------------------------------------------------------------------------
// Package-level state
// ---------------------------------------------------------------------------

type sharedRoots struct {
	w        *World
	initOnly map[*ssa.Function]bool
	atInit   map[*ssa.Function]bool // called (directly) during initialisation
	closures map[*ssa.Function][]*ssa.MakeClosure
	memo     map[ssa.Value]map[string]bool
	rets     map[*ssa.Function][]map[string]bool
	busyRet  map[*ssa.Function]bool
	mut      map[*ssa.Function]map[int]string // parameter index -> what is written
	mutBusy  map[*ssa.Function]bool
}

// isInitFn: a package initialiser, or init function of source.
func isInitFn(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func newSharedRoots(w *World) *sharedRoots {
	s := &sharedRoots{w: w, atInit: map[*ssa.Function]bool{}, initOnly: map[*ssa.Function]bool{}, closures: map[*ssa.Function][]*ssa.MakeClosure{},
		memo: map[ssa.Value]map[string]bool{}, rets: map[*ssa.Function][]map[string]bool{}, busyRet: map[*ssa.Function]bool{},
		mut: map[*ssa.Function]map[int]string{}, mutBusy: map[*ssa.Function]bool{}}
	// uses of every function of the repo
	type use struct {
		in   *ssa.Function
		call bool
	}
	uses := map[*ssa.Function][]use{}
	var all []*ssa.Function
	all = append(all, w.allFns...)
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					s.closures[mc.Fn.(*ssa.Function)] = append(s.closures[mc.Fn.(*ssa.Function)], mc)
				}
				var callee ssa.Value
				if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
					callee = c.Call.Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						uses[g] = append(uses[g], use{f, callee == g})
					}
				}
			}
		}
	}
	for _, f := range all {
		if isInitFn(f) {
			s.initOnly[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			if s.initOnly[f] || len(uses[f]) == 0 || f.Parent() != nil {
				continue
			}
			if f.Signature.Recv() != nil {
				continue
			}
			ok := true
			for _, u := range uses[f] {
				if !u.call || !s.initOnly[u.in] {
					ok = false
				}
			}
			if ok {
				s.initOnly[f] = true
				changed = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			if s.atInit[f] {
				continue
			}
			at := s.initOnly[f]
			for _, u := range uses[f] {
				if u.call && s.atInit[u.in] {
					at = true
				}
			}
			if at {
				s.atInit[f] = true
				changed = true
			}
		}
	}
	return s
}

func union(a, b map[string]bool) map[string]bool {
	if len(b) == 0 {
		return a
	}
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// roots: the shared objects (package-level variables, cells captured at
// initialisation, parameters as "#i") the pointer-like value v may point into.
func (s *sharedRoots) roots(v ssa.Value) map[string]bool {
	if m, ok := s.memo[v]; ok {
		return m
	}
	s.memo[v] = nil
	m := s.roots1(v)
	s.memo[v] = m
	return m
}

func hasPointers(t types.Type) bool { return hasPointersD(t, map[types.Type]bool{}) }
func hasPointersD(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointersD(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointersD(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointersD(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Signature:
		return false
	}
	return true
}

func (s *sharedRoots) roots1(v ssa.Value) map[string]bool {
	switch x := v.(type) {
	case *ssa.Global:
		if strings.HasPrefix(x.Name(), "init$guard") {
			return nil
		}
		if x.Pkg == nil || !isRepoPath(x.Pkg.Pkg.Path()) {
			return nil
		}
		return map[string]bool{x.RelString(nil): true}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return map[string]bool{fmt.Sprintf("#%d", i): true}
			}
		}
	case *ssa.FreeVar:
		var r map[string]bool
		fn := x.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == x {
				idx = i
			}
		}
		for _, mc := range s.closures[fn] {
			b := mc.Bindings[idx]
			par := mc.Parent()
			if _, ok := b.(*ssa.Alloc); ok && s.atInit[par] {
				r = union(r, map[string]bool{"variable " + b.(*ssa.Alloc).Comment + " of " + fnName(par): true})
			}
			for k := range s.roots(b) {
				if !strings.HasPrefix(k, "#") || true {
					// parameters of the enclosing function stay its parameters
					if strings.HasPrefix(k, "#") {
						k = "^" + fnName(par) + k
					}
					r = union(r, map[string]bool{k: true})
				}
			}
		}
		return r
	case *ssa.FieldAddr:
		return s.roots(x.X)
	case *ssa.IndexAddr:
		return s.roots(x.X)
	case *ssa.Field:
		return s.roots(x.X)
	case *ssa.Index:
		return s.roots(x.X)
	case *ssa.Slice:
		return s.roots(x.X)
	case *ssa.ChangeType:
		return s.roots(x.X)
	case *ssa.ChangeInterface:
		return s.roots(x.X)
	case *ssa.Convert:
		return s.roots(x.X)
	case *ssa.MakeInterface:
		return s.roots(x.X)
	case *ssa.TypeAssert:
		return s.roots(x.X)
	case *ssa.SliceToArrayPointer:
		return s.roots(x.X)
	case *ssa.Lookup:
		if hasPointers(x.Type()) {
			return s.roots(x.X)
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			return s.roots(rg.X)
		}
	case *ssa.Extract:
		return s.roots(x.Tuple)
	case *ssa.Phi:
		var r map[string]bool
		for _, e := range x.Edges {
			r = union(r, s.roots(e))
		}
		return r
	case *ssa.UnOp:
		if x.Op.String() != "*" || !hasPointers(x.Type()) {
			return nil
		}
		if a, ok := localCell(x.X); ok {
			var r map[string]bool
			for _, st := range storesTo(a) {
				r = union(r, s.roots(st))
			}
			return r
		}
		return s.roots(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return s.roots(x.Call.Args[0])
			}
			return nil
		}
		if !hasPointers(x.Type()) {
			return nil
		}
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || !isRepoPath(fnPkgPath(f)) {
			return nil
		}
		var r map[string]bool
		for k := range s.retRoots(f) {
			if i, ok := paramIdx(k); ok {
				if i < len(x.Call.Args) {
					r = union(r, s.roots(x.Call.Args[i]))
				}
				continue
			}
			r = union(r, map[string]bool{k: true})
		}
		return r
	}
	return nil
}

func paramIdx(k string) (int, bool) {
	if !strings.HasPrefix(k, "#") {
		return 0, false
	}
	i := 0
	_, err := fmt.Sscanf(k, "#%d", &i)
	return i, err == nil
}

// localCell: the address is (a part of) a local variable of the function itself.
func localCell(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil, false
			}
			v = x.X
		default:
			return nil, false
		}
	}
}

// storesTo: values stored anywhere into a local cell, within its function.
func storesTo(a *ssa.Alloc) []ssa.Value {
	var r []ssa.Value
	var walk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == v {
					r = append(r, y.Val)
				}
			case *ssa.FieldAddr:
				walk(y)
			case *ssa.IndexAddr:
				if y.X == v {
					walk(y)
				}
			}
		}
	}
	walk(a)
	return r
}

func (s *sharedRoots) retRoots(f *ssa.Function) map[string]bool {
	if m, ok := s.rets[f]; ok {
		return m[0]
	}
	if s.busyRet[f] {
		return nil
	}
	s.busyRet[f] = true
	var r map[string]bool
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if hasPointers(v.Type()) {
						r = union(r, s.roots(v))
					}
				}
			}
		}
	}
	s.busyRet[f] = false
	s.rets[f] = []map[string]bool{r}
	return r
}

// effect is a write to memory.
type effect struct {
	in   ssa.Instruction
	ptr  ssa.Value
	what string
}

// mutators of the standard library: argument index written.
func stdMutates(cp string, c *ssa.CallCommon) (int, bool) {
	switch {
	case strings.HasPrefix(cp, "slices.Sort"), cp == "slices.Reverse", strings.HasPrefix(cp, "slices.Delete"), strings.HasPrefix(cp, "slices.Compact"), strings.HasPrefix(cp, "slices.Insert"), strings.HasPrefix(cp, "slices.Replace"),
		strings.HasPrefix(cp, "sort.S"), cp == "sort.Ints", cp == "sort.Strings", cp == "maps.Copy", cp == "maps.DeleteFunc", strings.HasPrefix(cp, "math/rand.Shuffle"):
		return 0, true
	case cp == "maps.Insert":
		return 0, true
	}
	// methods with a pointer receiver of types that are not safe for concurrent use
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
			p := fnPkgPath(f)
			if isRepoPath(p) || isTsgoPath(p) {
				return 0, false
			}
			switch p {
			case "sync", "sync/atomic", "log", "os", "regexp", "time", "context", "flag", "runtime/pprof", "runtime/trace", "github.com/dlclark/regexp2", "reflect", "internal/sync", "math/big", "go/token":
				return 0, false
			}
			n := f.Name()
			switch n {
			case "Len", "String", "Bytes", "Cap", "Error", "Available", "Buffered", "Size":
				return 0, false
			}
			return 0, true
		}
	}
	return 0, false
}

// effects lists the writes of one function body.
func (s *sharedRoots) effects(f *ssa.Function) []effect {
	var r []effect
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := localCell(x.Addr); local {
					continue
				}
				r = append(r, effect{in, x.Addr, "assigned"})
			case *ssa.MapUpdate:
				r = append(r, effect{in, x.Map, "map entry written"})
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						r = append(r, effect{in, c.Args[0], bi.Name()})
					}
					continue
				}
				callee := c.StaticCallee()
				cp := calleePath(c)
				if i, ok := stdMutates(cp, c); ok && i < len(c.Args) {
					r = append(r, effect{in, c.Args[i], "passed to " + cp})
					continue
				}
				if callee == nil {
					if c.IsInvoke() {
						for _, m := range s.implementations(c) {
							if wr, ok := s.mutates(m)[0]; ok {
								r = append(r, effect{in, c.Value, "written by " + fnName(m) + " (" + wr + ")"})
							}
						}
					}
					continue
				}
				callee = s.w.real(callee)
				if len(callee.Blocks) > 0 && (isRepoPath(fnPkgPath(callee)) || isTsgoPath(fnPkgPath(callee)) && !ownsState(callee)) {
					for i, w := range s.mutates(callee) {
						if i < len(c.Args) {
							r = append(r, effect{in, c.Args[i], "written by " + fnName(callee) + " (" + w + ")"})
						}
					}
				}
			}
		}
	}
	return r
}

// implementations: methods of repo types an interface call may reach.
func (s *sharedRoots) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, f := range s.w.allFns {
		rc := f.Signature.Recv()
		if rc == nil || f.Parent() != nil || f.Name() != c.Method.Name() || len(f.Blocks) == 0 || !isRepoPath(fnPkgPath(f)) {
			continue
		}
		if types.Implements(rc.Type(), it) {
			r = append(r, f)
		}
	}
	return r
}

// ownsState: type checker and program, which update their own caches.
func ownsState(f *ssa.Function) bool {
	switch strings.TrimPrefix(fnPkgPath(f), tsgoPath+"/internal/") {
	case "checker", "compiler", "project", "tsoptions", "module":
		return true
	}
	return false
}

// mutates: the parameters through which f may write.
func (s *sharedRoots) mutates(f *ssa.Function) map[int]string {
	if m, ok := s.mut[f]; ok {
		return m
	}
	if s.mutBusy[f] {
		return nil
	}
	s.mutBusy[f] = true
	m := map[int]string{}
	for _, e := range s.effects(f) {
		for k := range s.roots(e.ptr) {
			if i, ok := paramIdx(k); ok {
				if _, has := m[i]; !has {
					m[i] = e.what
				}
			}
		}
	}
	// nested closures writing through the parameters
	for _, a := range f.AnonFuncs {
		s.closureWrites(f, a, m)
	}
	s.mutBusy[f] = false
	s.mut[f] = m
	return m
}

func (s *sharedRoots) closureWrites(f, a *ssa.Function, m map[int]string) {
	pre := "^" + fnName(f) + "#"
	for _, e := range s.effects(a) {
		for k := range s.roots(e.ptr) {
			if i := strings.LastIndex(k, pre); i >= 0 {
				n := 0
				if _, err := fmt.Sscanf(k[i+len(pre):], "%d", &n); err == nil {
					if _, has := m[n]; !has {
						m[n] = e.what
					}
				}
			}
		}
	}
	for _, b := range a.AnonFuncs {
		s.closureWrites(f, b, m)
	}
}

// syncSafe: objects of these types may be used by several goroutines at once.
func syncSafeName(t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

// ---------------------------------------------------------------------------

func checkC08(r *R) {
	r.Rule("no-global-state", "no function that runs after initialisation writes a package-level variable, what it points to, or a variable captured by a function at initialisation")
	r.Rule("read-only-trees", "rules, linter and utilities never write into objects of typescript-go they did not create themselves")
	r.Rule("options-untouched", "a rule's setup does not modify the options value it is given, which all files and workers share")
	r.Rule("own-checker", "rule code uses the type checker of its own context only: it never takes another checker from the program nor runs the program's own checkers")
	r.Rule("owned-memory", "two goroutines that may run at the same time access a memory cell only if neither writes, both hold the same lock, or the cell belongs to one of them")
	r.Rule("checker-handed-out-once", "each checker of a program is put into the work queue once, so that one worker at a time uses it")
	w := r.W
	s := newSharedRoots(w)
	nf, ne := 0, 0
	for _, f := range w.allFns {
		if s.initOnly[f] {
			continue
		}
		p := fnPkgPath(f)
		if !isRepoPath(p) || strings.HasPrefix(p, shimPrefix) {
			continue
		}
		nf++
		okAll := true
		for _, e := range s.effects(f) {
			ne++
			var ks []string
			for k := range s.roots(e.ptr) {
				if strings.HasPrefix(k, "#") || strings.HasPrefix(k, "^") {
					continue
				}
				if syncSafeName(e.ptr.Type()) {
					continue
				}
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if s.guarded(k) {
					continue
				}
				k = strings.ReplaceAll(k, modPath+"/", "")
				okAll = false
				r.Bad("no-global-state", k+" in "+fnName(f), w.pos(e.in.Pos()), "shared by all workers and "+e.what+" while linting")
			}
			if t, bad := s.treeWrite(f, e); bad {
				okAll = false
				r.Bad("read-only-trees", t+" in "+fnName(f), w.pos(e.in.Pos()), "an object of the shared program ("+t+") is "+e.what)
			}
		}
		if okAll {
			r.Ob("no-global-state", fnName(f), true, w.pos(f.Pos()), "")
		}
	}
	r.Info["functions_scanned_for_writes"] = nf
	r.Info["writes_examined"] = ne
	r.Min("no-global-state", 400)
	checkRuleOptions(r, s)
	checkCheckers(r)
	checkOwned(r)
}

// guarded: every access to the package-level variable after initialisation holds
// the same package-level lock, or is ordered by a sync.Once.
func (s *sharedRoots) guarded(k string) bool {
	type acc struct {
		f  *ssa.Function
		in ssa.Instruction
	}
	var accs []acc
	for _, f := range s.w.allFns {
		if s.initOnly[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, isFn := (*op).(*ssa.Function); isFn {
						continue
					}
					if s.roots(*op)[k] {
						accs = append(accs, acc{f, in})
						break
					}
				}
			}
		}
	}
	var common map[string]bool
	for i, a := range accs {
		ls := s.locksAt(a.f, a.in)
		if i == 0 {
			common = ls
			continue
		}
		n := map[string]bool{}
		for l := range ls {
			if common[l] {
				n[l] = true
			}
		}
		common = n
	}
	return len(accs) > 0 && len(common) > 0
}

// locksAt: package-level locks (and onces) held (passed) whenever in executes.
func (s *sharedRoots) locksAt(f *ssa.Function, in ssa.Instruction) map[string]bool {
	r := map[string]bool{}
	lockOf := func(c *ssa.CallCommon) []string {
		if len(c.Args) == 0 {
			return nil
		}
		var ks []string
		for k := range s.roots(c.Args[0]) {
			if !strings.HasPrefix(k, "#") && !strings.HasPrefix(k, "^") {
				ks = append(ks, k)
			}
		}
		return ks
	}
	// a closure run by sync.Once.Do
	if f.Parent() != nil {
		for _, mc := range s.onceUses(f) {
			for _, k := range lockOf(mc) {
				r[k] = true
			}
		}
	}
	gen, kill := map[ssa.Instruction][]string{}, map[ssa.Instruction][]string{}
	cand := map[string]bool{}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleePath(&c.Call) {
			case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.Once.Do":
				for _, k := range lockOf(&c.Call) {
					gen[x] = append(gen[x], k)
					cand[k] = true
				}
			case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
				kill[x] = lockOf(&c.Call)
			}
		}
	}
	for k := range cand {
		// reach in from the entry or an unlock without locking
		type pt struct {
			b *ssa.BasicBlock
			i int
		}
		bad := false
		seen := map[pt]bool{}
		var st []pt
		push := func(p pt) {
			if !seen[p] {
				seen[p] = true
				st = append(st, p)
			}
		}
		push(pt{f.Blocks[0], 0})
		for _, b := range f.Blocks {
			for i, x := range b.Instrs {
				for _, u := range kill[x] {
					if u == k {
						push(pt{b, i + 1})
					}
				}
			}
		}
		for len(st) > 0 && !bad {
			p := st[len(st)-1]
			st = st[:len(st)-1]
			if p.i >= len(p.b.Instrs) {
				for _, su := range p.b.Succs {
					push(pt{su, 0})
				}
				continue
			}
			x := p.b.Instrs[p.i]
			if x == in {
				bad = true
				break
			}
			stop := false
			for _, g := range gen[x] {
				if g == k {
					stop = true
				}
			}
			if !stop {
				push(pt{p.b, p.i + 1})
			}
		}
		if !bad {
			r[k] = true
		}
	}
	return r
}

// onceUses: the sync.Once.Do calls a closure is handed to, when it is used in no other way.
func (s *sharedRoots) onceUses(f *ssa.Function) []*ssa.CallCommon {
	var r []*ssa.CallCommon
	take := func(refs *[]ssa.Instruction) bool {
		for _, ref := range *refs {
			c, ok := ref.(*ssa.Call)
			if _, dbg := ref.(*ssa.DebugRef); dbg {
				continue
			}
			if !ok || calleePath(&c.Call) != "sync.Once.Do" {
				return false
			}
			r = append(r, &c.Call)
		}
		return true
	}
	for _, mc := range s.closures[f] {
		if !take(mc.Referrers()) {
			return nil
		}
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == f {
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					c, ok := in.(*ssa.Call)
					if !ok || calleePath(&c.Call) != "sync.Once.Do" {
						return nil
					}
					r = append(r, &c.Call)
				}
			}
		}
	}
	return r
}

// treeWrite: a write into an object of typescript-go that is not fresh.
func (s *sharedRoots) treeWrite(f *ssa.Function, e effect) (string, bool) {
	st, ok := e.in.(*ssa.Store)
	var base ssa.Value
	if ok {
		base = st.Addr
	} else if mu, ok := e.in.(*ssa.MapUpdate); ok {
		base = mu.Map
	} else {
		base = e.ptr
	}
	// walk to the object written into
	for {
		switch x := base.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(deref(x.X.Type())); n != nil && n.Obj().Pkg() != nil && isTsgoPath(n.Obj().Pkg().Path()) {
				return n.Obj().Name() + "." + fieldNameOf(x), !freshObj(x.X, map[ssa.Value]bool{})
			}
			base = x.X
			continue
		case *ssa.IndexAddr:
			base = x.X
			continue
		case *ssa.Slice:
			base = x.X
			continue
		case *ssa.ChangeType:
			base = x.X
			continue
		case *ssa.UnOp:
			base = x.X
			continue
		case *ssa.Call:
			// a container returned by an accessor of typescript-go
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				base = x.Call.Args[0]
				continue
			}
			c := x.Call.StaticCallee()
			if c == nil {
				return "", false
			}
			c = s.w.real(c)
			if isTsgoPath(fnPkgPath(c)) && hasPointers(x.Type()) && !constructorLike(c) {
				if _, isRet := x.Type().Underlying().(*types.Slice); isRet || isMapT(x.Type()) {
					return "result of " + fnName(c), true
				}
			}
			return "", false
		case *ssa.Extract:
			base = x.Tuple
			continue
		}
		return "", false
	}
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// constructorLike: the function returns memory it allocates itself.
func constructorLike(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if hasPointers(v.Type()) && !freshObj(v, map[ssa.Value]bool{}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// freshObj: the pointer denotes an object created in this function.
func freshObj(v ssa.Value, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Const, *ssa.MakeClosure:
		return true
	case *ssa.FieldAddr:
		return freshObj(x.X, busy)
	case *ssa.IndexAddr:
		return freshObj(x.X, busy)
	case *ssa.Slice:
		return freshObj(x.X, busy)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshObj(e, busy) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return freshObj(x.X, busy)
	case *ssa.ChangeType:
		return freshObj(x.X, busy)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return freshObj(x.Call.Args[0], busy)
			}
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			return false
		}
		return constructorLike(f)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if a, ok := localCell(x.X); ok {
				for _, st := range storesTo(a) {
					if !freshObj(st, busy) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func fieldNameOf(x *ssa.FieldAddr) string {
	fv, _, ok := fieldOf(x)
	if !ok {
		return "?"
	}
	return fv.Name()
}

// checkRuleOptions: the options parameter of every rule setup.
func checkRuleOptions(r *R, s *sharedRoots) {
	n := 0
	for _, f := range r.W.allFns {
		if !strings.HasPrefix(fnPkgPath(f), pRules) {
			continue
		}
		sg := f.Signature
		if sg.Results().Len() != 1 || !isNamed(sg.Results().At(0).Type(), pRule, "RuleListeners") {
			continue
		}
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Interface); !ok {
				continue
			}
			n++
			what, bad := s.mutates(f)[i]
			r.Ob("options-untouched", fnName(f), !bad, r.W.pos(f.Pos()), "the options given to the rule are "+what)
		}
	}
	r.Min("options-untouched", 50)
}

// checkCheckers: rule code must not get at other type checkers.
func checkCheckers(r *R) {
	w := r.W
	pChecker := tsgoPath + "/internal/checker"
	pCompiler := tsgoPath + "/internal/compiler"
	n := 0
	for _, f := range w.allFns {
		p := fnPkgPath(f)
		rulePkg := strings.HasPrefix(p, pRules)
		if !rulePkg && p != pUtils && p != pRule {
			continue
		}
		if p == pUtils && !takesChecker(f) {
			continue
		}
		ok := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if !isCall {
					continue
				}
				c := ci.Common()
				res := c.Signature().Results()
				for i := 0; i < res.Len(); i++ {
					if isNamed(deref(res.At(i).Type()), pChecker, "Checker") {
						ok = false
						r.Bad("own-checker", calleeLabel(c)+" in "+fnName(f), w.pos(in.Pos()), "a type checker other than the worker's own is obtained")
					}
				}
				callee := c.StaticCallee()
				if callee == nil {
					continue
				}
				callee = w.real(callee)
				if rc := callee.Signature.Recv(); rc != nil && isNamed(deref(rc.Type()), pCompiler, "Program") && usesCheckers(w, callee, map[*ssa.Function]bool{}) {
					ok = false
					r.Bad("own-checker", fnName(callee)+" in "+fnName(f), w.pos(in.Pos()), "the program's own type checkers are run while workers use them")
				}
			}
		}
		if ok {
			n++
			r.Ob("own-checker", fnName(f), true, w.pos(f.Pos()), "")
		}
	}
	r.Min("own-checker", 300)
}

func calleeLabel(c *ssa.CallCommon) string {
	if cp := calleePath(c); cp != "" {
		return strings.ReplaceAll(cp, tsgoPath+"/", "")
	}
	return "function value"
}

func takesChecker(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNamed(deref(p.Type()), tsgoPath+"/internal/checker", "Checker") {
			return true
		}
	}
	return false
}

// usesCheckers: the method of Program reaches its checker pool.
func usesCheckers(w *World, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if fnPkgPath(g) == tsgoPath+"/internal/compiler" && usesCheckers(w, g, seen) {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				res := c.Signature().Results()
				for i := 0; i < res.Len(); i++ {
					if isNamed(deref(res.At(i).Type()), tsgoPath+"/internal/checker", "Checker") {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Memory of the linter core
// ---------------------------------------------------------------------------

type memAccess struct {
	n     Node
	loc   Loc
	write bool
	what  string
}

func (h *Headless) accesses() []memAccess {
	var r []memAccess
	g := h.G
	add := func(n Node, ls []Loc, suffix string, write bool, what string) {
		for _, l := range ls {
			if g2, ok := l.Root.V.(*ssa.Global); ok && !isRepoPath(g2.Pkg.Pkg.Path()) {
				continue
			}
			r = append(r, memAccess{n, Loc{l.Root, l.Path + suffix}, write, what})
		}
	}
	ptr := func(f *Frame, v ssa.Value) []Loc { return g.addr(VV{f, v}, map[okey]bool{}) }
	for _, n := range h.Nodes {
		f := n.F
		switch x := n.I.(type) {
		case *ssa.Store:
			add(n, ptr(f, x.Addr), "", true, "assignment")
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				add(n, ptr(f, x.X), "", false, "read")
			}
		case *ssa.MapUpdate:
			add(n, g.addrMap(VV{f, x.Map}), "{}", true, "map write")
		case *ssa.Lookup:
			if isMapT(x.X.Type()) {
				add(n, g.addrMap(VV{f, x.X}), "{}", false, "map read")
			}
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok && isMapT(rg.X.Type()) {
				add(n, g.addrMap(VV{f, rg.X}), "{}", false, "map iteration")
			}
		}
		c := callOf(n)
		if c == nil || !g.Opaque(n) {
			continue
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				add(n, g.addrMap(VV{f, c.Args[0]}), "{}", true, "map delete")
			case "clear":
				if isMapT(c.Args[0].Type()) {
					add(n, g.addrMap(VV{f, c.Args[0]}), "{}", true, "clear")
				} else {
					add(n, g.sliceRoots(VV{f, c.Args[0]}, map[okey]bool{}), "[]", true, "clear")
				}
			case "copy":
				add(n, g.sliceRoots(VV{f, c.Args[0]}, map[okey]bool{}), "[]", true, "copy")
			case "len":
				if isMapT(c.Args[0].Type()) {
					add(n, g.addrMap(VV{f, c.Args[0]}), "{}", false, "len")
				}
			}
			continue
		}
		if i, ok := stdMutates(calleePath(c), c); ok && i < len(c.Args) {
			a := c.Args[i]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			switch a.Type().Underlying().(type) {
			case *types.Slice:
				add(n, g.sliceRoots(VV{f, a}, map[okey]bool{}), "[]", true, "call of "+calleePath(c))
			case *types.Map:
				add(n, g.addrMap(VV{f, a}), "{}", true, "call of "+calleePath(c))
			case *types.Pointer:
				add(n, ptr(f, a), "", true, "call of "+calleePath(c))
			}
		}
	}
	return r
}

func pathOverlap(a, b string) bool {
	return strings.HasPrefix(a, b) && isPathBreak(a[len(b):]) || strings.HasPrefix(b, a) && isPathBreak(b[len(a):])
}

func (h *Headless) threadChain(f *Frame) []*Frame {
	var r []*Frame
	for t := f.Thread; t != nil; {
		r = append(r, t)
		if t.Parent == nil {
			break
		}
		t = t.Parent.Thread
	}
	return r
}

type raceCtx struct {
	h     *Headless
	reach map[string]map[Node]bool
	locks map[string][2][]Node
	prot  map[string]bool
}

// alive: nodes of the spawner that may execute while t runs; def re-creates the object in question.
func (c *raceCtx) alive(t *Frame, def ssa.Value, defF *Frame) map[Node]bool {
	key := fmt.Sprintf("%d|%p|%p", t.ID, def, defF)
	if m, ok := c.reach[key]; ok {
		return m
	}
	h := c.h
	if t.Kind == kParallel {
		c.reach[key] = nil
		return nil
	}
	sp := spawnNode(t)
	stop := func(n Node) bool {
		if h.joinNode(t, n) {
			return true
		}
		if def != nil && n.F == defF {
			if in, ok := def.(ssa.Instruction); ok && n.I == in {
				return true
			}
		}
		return false
	}
	seen := h.G.Reach(h.G.After(sp), stop, func(from Node, e Edge) bool { return e.To.F == t })
	for n := range seen {
		if stop(n) {
			delete(seen, n)
		}
	}
	c.reach[key] = seen
	return seen
}

// several: more than one instance of t can run on the same object.
func (c *raceCtx) several(t *Frame, root VV) bool {
	if t.Kind == kParallel {
		return true
	}
	return c.alive(t, root.V, root.F)[spawnNode(t)]
}

func (c *raceCtx) concurrent(a, b Node, root VV) bool {
	ca, cb := c.h.threadChain(a.F), c.h.threadChain(b.F)
	owner := map[*Frame]bool{}
	if root.F != nil {
		for _, t := range c.h.threadChain(root.F) {
			owner[t] = true
		}
	}
	// common ancestor
	inb := map[*Frame]int{}
	for i, t := range cb {
		inb[t] = i
	}
	ia, ib := -1, -1
	for i, t := range ca {
		if j, ok := inb[t]; ok {
			ia, ib = i, j
			break
		}
	}
	if ia < 0 {
		return true
	}
	// shared prefix: any thread on the common chain not owning the object and existing several times
	for _, t := range ca[ia:] {
		if t.Parent == nil || owner[t] {
			break
		}
		if c.several(t, root) {
			return true
		}
	}
	switch {
	case ia == 0 && ib == 0:
		return false
	case ia == 0: // a runs in the ancestor, b below
		return c.inAncestor(cb[ib-1], a, root)
	case ib == 0:
		return c.inAncestor(ca[ia-1], b, root)
	}
	ta, tb := ca[ia-1], cb[ib-1]
	if ta == tb {
		return false
	}
	return c.inAncestor(ta, spawnNode(tb), root) || c.inAncestor(tb, spawnNode(ta), root)
}

// inAncestor: node n of an enclosing thread may run while t does.
func (c *raceCtx) inAncestor(t *Frame, n Node, root VV) bool {
	return c.alive(t, root.V, root.F)[n]
}

// protected: node n only runs with lock m held (or inside / after a sync.Once on m).
func (c *raceCtx) protected(n Node, m string) bool {
	key := m + fmt.Sprintf("|%d|%p|%p", n.F.ID, n.I, n.At)
	if v, ok := c.prot[key]; ok {
		return v
	}
	lk := c.locks[m]
	isLock := map[Node]bool{}
	for _, x := range lk[0] {
		isLock[x] = true
	}
	e, _ := c.h.G.Entry(n.F.Thread)
	starts := []Node{e}
	for _, u := range lk[1] {
		starts = append(starts, c.h.G.After(u)...)
	}
	cut := func(from Node, ed Edge) bool { return ed.To.F.Thread != n.F.Thread }
	var st []Node
	for _, s := range starts {
		if s.F.Thread == n.F.Thread {
			st = append(st, s)
		}
	}
	ok := !c.h.G.Reach(st, func(x Node) bool { return isLock[x] }, cut)[n]
	c.prot[key] = ok
	return ok
}

func checkOwned(r *R) {
	h := headless(r)
	if h == nil {
		return
	}
	g := h.G
	c := &raceCtx{h: h, reach: map[string]map[Node]bool{}, locks: map[string][2][]Node{}, prot: map[string]bool{}}
	for _, n := range h.Nodes {
		cc := callOf(n)
		if cc == nil || len(cc.Args) == 0 {
			continue
		}
		k, shared := -1, false
		switch calleePath(cc) {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock":
			k = 0
		case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
			k = 1
		case "sync.RWMutex.RLock":
			k, shared = 0, true
		case "sync.RWMutex.RUnlock":
			k, shared = 1, true
		}
		if k < 0 {
			continue
		}
		for l := range h.locsOf(VV{n.F, cc.Args[0]}) {
			if !shared {
				e := c.locks[l]
				e[k] = append(e[k], n)
				c.locks[l] = e
			}
			e := c.locks["r:"+l]
			e[k] = append(e[k], n)
			c.locks["r:"+l] = e
		}
	}
	acc := h.accesses()
	by := map[string][]memAccess{}
	for _, a := range acc {
		k := rootKey(g, a.loc)
		by[k] = append(by[k], a)
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nw := 0
	reported := map[string]bool{}
	for _, k := range keys {
		as := by[k]
		root := as[0].loc.Root
		if syncSafeName(root.V.Type()) {
			continue
		}
		// accessed by one thread only?
		okRoot, multi := true, false
		for _, a := range as {
			if !a.write {
				continue
			}
			for _, b := range as {
				if !pathOverlap(a.loc.Path, b.loc.Path) {
					continue
				}
				if b.write && g.less(b.n, a.n) {
					continue // symmetric
				}
				why, race := c.race(a, b, root)
				if a.n.F.Thread != b.n.F.Thread || a.n.F.Thread.Parent != nil {
					multi = true
				}
				if race {
					okRoot = false
					con := fmt.Sprintf("%s (%s) in %s / %s in %s", h.cellLabel(root), strings.TrimPrefix(a.loc.Path, "."), h.where(a.n), b.what, h.where(b.n))
					if !reported[con] {
						reported[con] = true
						r.Bad("owned-memory", con, g.nodePos(a.n), fmt.Sprintf("%s here and %s at %s may happen at the same time: %s", a.what, b.what, g.nodePos(b.n), why))
					}
				}
			}
		}
		if multi {
			nw++
		}
		if okRoot && multi {
			r.Ob("owned-memory", h.cellLabel(root), true, r.W.pos(root.V.Pos()), "")
		}
	}
	r.Info["memory_cells"] = len(keys)
	r.Info["cells_written_in_or_seen_by_goroutines"] = nw
	r.Info["goroutines"] = len(h.threads())
	r.Min("owned-memory", 20)
	checkHandedOut(r, h)
}

func (h *Headless) cellLabel(v VV) string {
	switch x := v.V.(type) {
	case *ssa.Alloc:
		c := x.Comment
		if c == "" {
			c = x.Type().String()
		}
		return c + " of " + fnName(x.Parent())
	case *ssa.Global:
		return strings.ReplaceAll(x.RelString(nil), modPath+"/", "")
	case *ssa.Parameter:
		return x.Name() + " of " + fnName(x.Parent())
	case *ssa.FreeVar:
		return x.Name() + " of " + fnName(x.Parent())
	case *ssa.Call:
		return "result of " + calleeLabel(&x.Call)
	case ssa.Instruction:
		return strings.TrimPrefix(fmt.Sprintf("%T", v.V), "*ssa.") + " in " + fnName(x.Parent())
	}
	return fmt.Sprint(v.V.Name())
}

func (c *raceCtx) race(a, b memAccess, root VV) (string, bool) {
	h := c.h
	// handed over through a channel: the owner must not touch it after sending
	if root.F != nil {
		ot := root.F.Thread
		ina, inb := inChain(h.threadChain(a.n.F), ot), inChain(h.threadChain(b.n.F), ot)
		if !ina || !inb {
			if !ina && !inb {
				return "", false // the receiver's own accesses
			}
			own, oth := a, b
			if !ina {
				own, oth = b, a
			}
			if own.n.F.Thread != ot {
				return "the object is shared by goroutines that did not create it", true
			}
			_ = oth
			if c.afterSend(own.n, root) {
				return "the creator still uses the object after handing it over", true
			}
			return "", false
		}
	}
	if !c.concurrent(a.n, b.n, root) {
		return "", false
	}
	held := func(x memAccess, m string) bool {
		return c.protected(x.n, m) || !x.write && c.protected(x.n, "r:"+m)
	}
	for m := range c.locks {
		if !strings.HasPrefix(m, "r:") && held(a, m) && held(b, m) {
			return "", false
		}
	}
	return "no common lock and no join orders them", true
}

func inChain(ch []*Frame, t *Frame) bool {
	for _, x := range ch {
		if x == t {
			return true
		}
	}
	return false
}

// afterSend: n can execute after the object created at root was sent on a channel.
func (c *raceCtx) afterSend(n Node, root VV) bool {
	h := c.h
	in, _ := root.V.(ssa.Instruction)
	for _, s := range h.Nodes {
		sd, ok := s.I.(*ssa.Send)
		if !ok || s.F.Thread != root.F.Thread {
			continue
		}
		mentions := false
		for _, o := range h.G.Origins(VV{s.F, sd.X}) {
			if o.V == root.V && o.F == root.F {
				mentions = true
			}
			if ld, ok := o.V.(*ssa.Alloc); ok {
				for _, ms := range h.G.stores[rootKey(h.G, Loc{Root: VV{o.F, ld}})] {
					for _, oo := range h.G.Origins(ms.Val) {
						if oo.V == root.V && oo.F == root.F {
							mentions = true
						}
					}
				}
			}
		}
		if !mentions {
			continue
		}
		seen := h.G.Reach(h.G.After(s), func(x Node) bool { return x.F == root.F && x.I == in }, func(from Node, e Edge) bool { return e.To.F.Thread != root.F.Thread })
		if seen[n] {
			return true
		}
	}
	return false
}

// checkHandedOut: checkers reach the work queue once each.
func checkHandedOut(r *R, h *Headless) {
	ct := tsgoPath + "/internal/checker"
	n := 0
	for _, f := range h.G.Frames {
		if f.Kind != kParallel || calleePath(f.Site.Common()) != tsgoPath+"/internal/compiler.Program.ForEachCheckerParallel" {
			continue
		}
		for _, p := range f.Fn.Params {
			if !isNamed(deref(p.Type()), ct, "Checker") {
				continue
			}
			n++
			// every use of the checker inside the callback is one store into one work item
			k := 0
			bad := ""
			for _, ref := range *p.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					k++
				case *ssa.DebugRef:
				case ssa.CallInstruction:
					_ = y
				default:
					k++
				}
			}
			if k != 1 {
				bad = fmt.Sprintf("the checker is stored %d times per call", k)
			}
			r.Ob("checker-handed-out-once", fnName(f.Fn), bad == "", r.W.pos(f.Fn.Pos()), bad)
		}
	}
	// the list of checkers is put into the queue element by element
	carries := func(t types.Type) bool {
		if isNamed(deref(t), ct, "Checker") {
			return true
		}
		if st, ok := deref(t).Underlying().(*types.Struct); ok && namedOf(deref(t)) != nil && isRepoPath(typePkg(deref(t))) {
			for i := 0; i < st.NumFields(); i++ {
				if isNamed(deref(st.Field(i).Type()), ct, "Checker") {
					return true
				}
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	for _, nd := range h.Nodes {
		sd, ok := nd.I.(*ssa.Send)
		if !ok || !carries(sd.X.Type()) || done[sd.Parent()] {
			continue
		}
		f := sd.Parent()
		done[f] = true
		var in *Iter
		for _, it := range itersIn(f) {
			if it.Loop.Body[sd.Block()] && (in == nil || len(it.Loop.Body) < len(in.Loop.Body)) {
				in = it
			}
		}
		bad := ""
		loops := 0
		for _, l := range loopsOf(f) {
			if l.Body[sd.Block()] {
				loops++
			}
		}
		if in == nil || loops != 1 {
			if !(loops == 0 && nd.F.Kind == kParallel) {
				bad = "the send is not the body of one plain loop over the checkers"
			}
		} else {
			elems, _ := in.ElemVals()
			is := false
			for _, o := range h.G.Origins(VV{nd.F, sd.X}) {
				_ = o
			}
			for _, e := range elems {
				if e == sd.X {
					is = true
				}
				if a, ok := loadedCell(sd.X); ok {
					for _, v := range storesTo(a) {
						if v == e {
							is = true
						}
					}
				}
			}
			if !is {
				bad = "what is sent is not the current element of the list of checkers"
			}
			n := 0
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					if s2, ok := x.(*ssa.Send); ok && carries(s2.X.Type()) {
						n++
					}
				}
			}
			if n != 1 {
				bad = "several sends of the same list of checkers"
			}
		}
		r.Ob("checker-handed-out-once", "queue in "+fnName(f), bad == "", r.W.pos(sd.Pos()), bad)
	}
	r.Min("checker-handed-out-once", 3)
	// nothing else runs the program's checkers while the workers do
	c := &raceCtx{h: h, reach: map[string]map[Node]bool{}, locks: map[string][2][]Node{}, prot: map[string]bool{}}
	rcs := h.ruleCalls(r)
	for _, nd := range h.Nodes {
		cc := callOf(nd)
		if cc == nil || !h.G.Opaque(nd) || cc.StaticCallee() == nil {
			continue
		}
		callee := r.W.real(cc.StaticCallee())
		rc := callee.Signature.Recv()
		if rc == nil || !isNamed(deref(rc.Type()), tsgoPath+"/internal/compiler", "Program") || !usesCheckers(r.W, callee, map[*ssa.Function]bool{}) {
			continue
		}
		bad := ""
		for _, x := range rcs {
			if c.concurrent(nd, x.N, VV{}) || inChain(h.threadChain(nd.F), x.N.F.Thread) {
				bad = "the program's own checkers are run while a worker may be linting with them (" + h.G.nodePos(x.N) + ")"
			}
		}
		r.Ob("own-checker", fnName(callee)+" in "+h.where(nd), bad == "", h.G.nodePos(nd), bad)
	}
}

func loadedCell(v ssa.Value) (*ssa.Alloc, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return nil, false
	}
	return localCell(u.X)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "The same request always gives the same diagnostics", "order-insensitivity analysis of every loop over a map (or over a list collected in map or completion order), taint from clock, randomness, addresses and internal numbering", checkC09)
}

// reachRepo: repo functions a headless run can execute.
func reachRepo(w *World) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			st = append(st, f)
		}
	}
	methods := map[string][]*ssa.Function{}
	for _, f := range w.allFns {
		if isInitFn(f) {
			push(f)
		}
		if rc := f.Signature.Recv(); rc != nil && f.Parent() == nil {
			if n := namedOf(deref(rc.Type())); n != nil {
				methods[n.Obj().Name()+"|"+typePkg(n)] = append(methods[n.Obj().Name()+"|"+typePkg(n)], f)
			}
		}
	}
	push(headlessRoot(w))
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && isRepoPath(fnPkgPath(g)) {
						push(g)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if n := namedOf(deref(mi.X.Type())); n != nil {
						for _, m := range methods[n.Obj().Name()+"|"+typePkg(n)] {
							push(m)
						}
					}
				}
			}
		}
	}
	return seen
}

type ordLoop struct {
	fn     *ssa.Function
	body   map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
	test   *ssa.If // the loop test
	coll   ssa.Value
	elems  map[ssa.Value]bool // the current element (key or value)
	keys   map[ssa.Value]bool // values unique to one iteration
	what   string
	anyKey bool // keys computed from the element are accepted
	pos    token.Pos
}

type ordAn struct {
	r      *R
	w      *World
	s      *sharedRoots
	fns    map[*ssa.Function]bool
	done   map[ssa.Value]bool
	doneM  map[ssa.Value]bool
	doneL  map[*ssa.BasicBlock]bool
	fields map[string]bool
	calls  map[*ssa.Function][]*ssa.Call
	n      int

	reporters map[*ssa.Function]bool
	pure      map[*ssa.Function]bool // impurity of functions
}

func (a *ordAn) bad(f *ssa.Function, p token.Pos, what, msg string) {
	if !p.IsValid() {
		p = f.Pos()
	}
	a.r.Bad("map-order", what+" in "+fnName(f), a.w.pos(p), msg)
}

// ---- values and instructions of a loop ---------------------------------------

func (l *ordLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() != nil && l.body[i.Block()]
}

// derived: v is computed from the current element.
func (l *ordLoop) derived(v ssa.Value, seen map[ssa.Value]bool) bool {
	if l.elems[v] {
		return true
	}
	if seen[v] || !l.in(v) {
		return false
	}
	seen[v] = true
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil && l.derived(*op, seen) {
			return true
		}
	}
	return l.viaCell(v, func(x ssa.Value) bool { return l.derived(x, seen) })
}

// viaCell: v is loaded from a variable of the iteration, and one of its values satisfies p.
func (l *ordLoop) viaCell(v ssa.Value, p func(ssa.Value) bool) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := localCell(u.X)
	if !ok || !l.body[al.Block()] {
		return false
	}
	for _, x := range storesTo(al) {
		if p(x) {
			return true
		}
	}
	return false
}

func (l *ordLoop) dependsOn(v ssa.Value, p func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if p(v) {
		return true
	}
	if seen[v] || !l.in(v) {
		return false
	}
	seen[v] = true
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil && l.dependsOn(*op, p, seen) {
			return true
		}
	}
	return l.viaCell(v, func(x ssa.Value) bool { return l.dependsOn(x, p, seen) })
}

// upd classifies a loop-carried update. isP recognises the carried value.
func (l *ordLoop) upd(u ssa.Value, isP func(ssa.Value) bool, kinds map[string]bool, busy map[ssa.Value]bool) bool {
	if isP(u) || busy[u] {
		return true
	}
	if c, ok := u.(*ssa.Const); ok {
		kinds["const:"+c.String()] = true
		return true
	}
	if !l.in(u) {
		kinds["const:"+u.Name()] = true // the same value in every iteration
		return true
	}
	busy[u] = true
	switch x := u.(type) {
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			sub := map[string]bool{}
			if !l.upd(e, isP, sub, busy) {
				// minimum or maximum: selected by a comparison with the carried value
				if l.compared(e, isP) && !l.dependsOn(e, isP, map[ssa.Value]bool{}) {
					kinds["extremum"] = true
					continue
				}
				ok = false
			}
			for k := range sub {
				kinds[k] = true
			}
		}
		return ok
	case *ssa.BinOp:
		b, isB := x.Type().Underlying().(*types.Basic)
		if !isB || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return false
		}
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			for i, s := range []ssa.Value{x.X, x.Y} {
				o := x.Y
				if i == 1 {
					o = x.X
				}
				if l.upd(s, isP, map[string]bool{}, map[ssa.Value]bool{}) && l.dependsOn(s, isP, map[ssa.Value]bool{}) && !l.dependsOn(o, isP, map[ssa.Value]bool{}) {
					kinds["op:"+x.Op.String()] = true
					return true
				}
			}
		case token.SUB:
			if isP(x.X) && !l.dependsOn(x.Y, isP, map[ssa.Value]bool{}) {
				kinds["op:+"] = true
				return true
			}
		}
		return false
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if l.upd(x.Call.Args[0], isP, kinds, busy) {
					kinds["append"] = true
					return true
				}
			case "min", "max":
				n := 0
				for _, a := range x.Call.Args {
					if isP(a) {
						n++
					} else if l.dependsOn(a, isP, map[ssa.Value]bool{}) {
						return false
					}
				}
				if n == 1 {
					kinds["extremum:"+bi.Name()] = true
					return true
				}
			}
		}
		return false
	case *ssa.ChangeType:
		return l.upd(x.X, isP, kinds, busy)
	}
	if l.compared(u, isP) && !l.dependsOn(u, isP, map[ssa.Value]bool{}) {
		kinds["extremum"] = true
		return true
	}
	return false
}

// compared: a branch of the loop orders v against the carried value.
func (l *ordLoop) compared(v ssa.Value, isP func(ssa.Value) bool) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
			default:
				continue
			}
			if isP(x.X) && sameVal(x.Y, v) || isP(x.Y) && sameVal(x.X, v) {
				for _, ref := range *x.Referrers() {
					if _, ok := ref.(*ssa.If); ok {
						return true
					}
					if _, ok := ref.(*ssa.Phi); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func compatible(kinds map[string]bool) bool { return len(kinds) <= 1 }

// logOnly: nothing but log output depends on v.
func logOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !logOnly(x, seen) {
				return false
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if !logOnly(x, seen) {
					return false
				}
			} else {
				return false
			}
		case *ssa.MakeInterface:
			if !logOnly(x, seen) {
				return false
			}
		case *ssa.ChangeType:
			if !logOnly(x, seen) {
				return false
			}
		case *ssa.Slice:
			if !logOnly(x, seen) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || x.Val != v {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok || !logOnly(al, seen) {
				return false
			}
		case *ssa.IndexAddr:
		case *ssa.Panic:
		case *ssa.Call:
			cp := calleePath(&x.Call)
			if isLogCall(&x.Call) {
				continue
			}
			switch {
			case cp == "fmt.Sprintf", cp == "fmt.Sprint", cp == "fmt.Errorf", cp == "strings.Join", strings.HasPrefix(cp, "strconv."):
				if !logOnly(x, seen) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isLogCall(c *ssa.CallCommon) bool {
	cp := calleePath(c)
	if strings.HasPrefix(cp, "log.") {
		return true
	}
	if strings.HasPrefix(cp, "fmt.Fprint") && len(c.Args) > 0 {
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			if u, ok := mi.X.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.RelString(nil) == "os.Stderr" {
					return true
				}
			}
		}
	}
	return false
}

// timing values are outside of the property.
func isTimingType(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Map:
			t = u.Elem()
			continue
		}
		break
	}
	n := namedOf(t)
	return n != nil && typePkg(n) == pLinter && strings.Contains(n.Obj().Name(), "Timing")
}

func baseObj(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// own: the object belongs to the iteration (created in it or part of the element).
func (l *ordLoop) own(ptr ssa.Value) bool {
	b := baseObj(ptr)
	if l.derived(b, map[ssa.Value]bool{}) {
		return true
	}
	switch x := b.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return l.in(b)
	case *ssa.UnOp:
		if al, ok := localCell(x.X); ok && l.body[al.Block()] {
			return true
		}
	case *ssa.Call:
		return l.in(b)
	case *ssa.Extract:
		return l.in(b)
	}
	return false
}

// ---- analysis of one loop -----------------------------------------------------

func (a *ordAn) loop(l *ordLoop) {
	if a.doneL[l.header] {
		return
	}
	a.doneL[l.header] = true
	a.n++
	before := len(a.r.Violations)
	if !a.singleton(l) {
		a.loop1(l)
	}
	if len(a.r.Violations) == before {
		a.r.Ob("map-order", l.what+" in "+fnName(l.fn), true, a.w.pos(l.pos), "")
	}
}

// singleton: the loop only runs over a map known to hold one entry.
func (a *ordAn) singleton(l *ordLoop) bool {
	n, _ := a.sizeGuard(l)
	return n == 1
}

// sizeGuard: the size the collection is known to have at the loop.
func (a *ordAn) sizeGuard(l *ordLoop) (int64, bool) {
	for _, b := range l.fn.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := c.X, c.Y
		if lenArg(x) == nil {
			x, y = y, x
		}
		la := lenArg(x)
		n, isC := constInt(y)
		if la == nil || !isC || !sameVal(la, l.coll) {
			continue
		}
		var s *ssa.BasicBlock
		switch c.Op {
		case token.EQL:
			s = b.Succs[0]
		case token.NEQ:
			s = b.Succs[1]
		default:
			continue
		}
		if len(s.Preds) == 1 && (s == l.header || s.Dominates(l.header)) {
			return n, true
		}
	}
	return 0, false
}

func (a *ordAn) loop1(l *ordLoop) {
	f := l.fn
	effects := []string{}
	eff := func(in ssa.Instruction, s string) { effects = append(effects, s) }
	_ = eff
	// loop-carried registers
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if l.keys[p] || isLoopCounter(p, l) {
			continue
		}
		kinds := map[string]bool{}
		ok = true
		for i, e := range p.Edges {
			if !l.body[l.header.Preds[i]] {
				continue
			}
			if !l.upd(e, func(v ssa.Value) bool { return v == p }, kinds, map[ssa.Value]bool{}) {
				ok = false
			}
		}
		if (!ok || !compatible(kinds)) && !logOnly(p, map[ssa.Value]bool{}) {
			a.bad(f, p.Pos(), l.what, fmt.Sprintf("%s depends on the order of %s", nameOfPhi(p), l.what))
			continue
		}
		if !logOnly(p, map[ssa.Value]bool{}) && len(kinds) > 0 && !onlyConst(kinds) {
			effects = append(effects, "accumulates "+nameOfPhi(p))
		}
		if kinds["append"] {
			if !isTimingType(p.Type()) {
				a.taint(p, l, "a list filled in the order of "+l.what)
			}
		}
	}
	// memory and calls
	for _, b := range f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if l.own(x.Addr) || isTimingType(x.Val.Type()) {
					continue
				}
				addr := x.Addr
				isP := func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					return ok && u.Op == token.MUL && sameVal(u.X, addr)
				}
				kinds := map[string]bool{}
				ok := l.upd(x.Val, isP, kinds, map[ssa.Value]bool{})
				// all stores of the loop to this cell together
				for _, b2 := range f.Blocks {
					if !l.body[b2] {
						continue
					}
					for _, in2 := range b2.Instrs {
						if y, is := in2.(*ssa.Store); is && y != x && sameVal(y.Addr, addr) {
							l.upd(y.Val, isP, kinds, map[ssa.Value]bool{})
						}
					}
				}
				if !ok || !compatible(kinds) {
					a.bad(f, x.Pos(), l.what, fmt.Sprintf("what is stored in %s depends on the order of %s", addrName(addr), l.what))
					continue
				}
				if !onlyConst(kinds) {
					effects = append(effects, "accumulates in memory")
				}
				if kinds["append"] {
					a.taintCell(addr, l, x, "a list filled in the order of "+l.what)
				}
			case *ssa.MapUpdate:
				if l.own(x.Map) || isTimingType(x.Value.Type()) {
					continue
				}
				effects = append(effects, "fills a map")
				if l.keys[x.Key] {
					// entry of this element only: the value must not depend on other elements
					continue
				}
				if _, c := x.Value.(*ssa.Const); c || isEmptyStruct(x.Value.Type()) || !l.in(x.Value) {
					continue
				}
				if l.anyKey && l.derived(x.Key, map[ssa.Value]bool{}) {
					continue
				}
				isP := func(v ssa.Value) bool {
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					return ok && sameLoad(lk.X, x.Map) && sameVal(lk.Index, x.Key)
				}
				kinds := map[string]bool{}
				if l.upd(x.Value, isP, kinds, map[ssa.Value]bool{}) && len(kinds) == 1 {
					if kinds["append"] {
						a.taintMap(x.Map, l, "lists filled in the order of "+l.what)
						continue
					}
					if !onlyConst(kinds) {
						continue
					}
				}
				a.bad(f, x.Pos(), l.what, "entries of a map are written under keys several elements may share, the last one in the order of "+l.what+" wins")
			case *ssa.Go, *ssa.Defer:
				a.bad(f, x.Pos(), l.what, "a goroutine or deferred call is started in the order of "+l.what)
			case *ssa.Select:
				a.bad(f, x.Pos(), l.what, "a select depends on timing")
			case *ssa.Send:
				effects = append(effects, "sends")
			case *ssa.Call:
				why, isEff := a.callOK(l, x)
				if why != "" {
					a.bad(f, x.Pos(), l.what, why)
				}
				if isEff != "" {
					effects = append(effects, isEff)
				}
			}
		}
	}
	a.carried(l)
	a.reports(l)
	a.exits(l, effects)
}

// carried: state one iteration leaves for the next may be updated, not consulted.
func (a *ordAn) carried(l *ordLoop) {
	type cell struct {
		reads  []ssa.Value
		writes map[ssa.Instruction]bool
		name   string
		key    ssa.Value // dedupe: the reads are lookups of this key
	}
	var cells []*cell
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok || l.keys[p] || isLoopCounter(p, l) || isTimingType(p.Type()) {
			continue
		}
		cells = append(cells, &cell{reads: []ssa.Value{p}, writes: map[ssa.Instruction]bool{}, name: nameOfPhi(p)})
	}
	for _, b := range l.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if l.own(x.Addr) || isTimingType(x.Val.Type()) {
					continue
				}
				c := &cell{writes: map[ssa.Instruction]bool{x: true}, name: addrName(x.Addr)}
				for _, b2 := range l.fn.Blocks {
					if l.body[b2] {
						for _, in2 := range b2.Instrs {
							if u, ok := in2.(*ssa.UnOp); ok && u.Op == token.MUL && sameVal(u.X, x.Addr) {
								c.reads = append(c.reads, u)
							}
							if y, ok := in2.(*ssa.Store); ok && sameVal(y.Addr, x.Addr) {
								c.writes[y] = true
							}
						}
					}
				}
				cells = append(cells, c)
			case *ssa.MapUpdate:
				if l.own(x.Map) || isTimingType(x.Value.Type()) || isTimingType(x.Map.Type()) {
					continue
				}
				c := &cell{writes: map[ssa.Instruction]bool{x: true}, name: mapName(x.Map), key: x.Key}
				for _, b2 := range l.fn.Blocks {
					if !l.body[b2] {
						continue
					}
					for _, in2 := range b2.Instrs {
						switch y := in2.(type) {
						case *ssa.Lookup:
							if sameVal(y.X, x.Map) && !(l.keys[y.Index] && l.keys[x.Key]) {
								if !sameVal(y.Index, x.Key) {
									c.key = nil
								}
								c.reads = append(c.reads, y)
							}
						case *ssa.Call:
							if la := lenArg(y); la != nil && sameVal(la, x.Map) {
								c.key = nil
								c.reads = append(c.reads, y)
							}
						case *ssa.MapUpdate:
							if sameVal(y.Map, x.Map) {
								c.writes[y] = true
							}
						}
					}
				}
				cells = append(cells, c)
			}
		}
	}
	for _, c := range cells {
		if len(c.reads) == 0 {
			continue
		}
		// everything computed from the carried state
		slice := map[ssa.Value]bool{}
		st := append([]ssa.Value{}, c.reads...)
		for len(st) > 0 {
			v := st[len(st)-1]
			st = st[:len(st)-1]
			if slice[v] || v.Referrers() == nil {
				continue
			}
			slice[v] = true
			for _, ref := range *v.Referrers() {
				if sto, ok := ref.(*ssa.Store); ok && sto.Val == v {
					if al, ok := localCell(sto.Addr); ok && l.body[al.Block()] {
						st = append(st, l.loadsOf(al)...)
					}
				}
				if i, ok := ref.(*ssa.If); ok && l.body[i.Block()] {
					st = append(st, l.decided(i)...)
				}
				if rv, ok := ref.(ssa.Value); ok && l.in(rv) {
					if p, isPhi := rv.(*ssa.Phi); isPhi && p.Block() == l.header {
						continue
					}
					st = append(st, rv)
				}
			}
		}
		report := func(in ssa.Instruction) {
			a.bad(l.fn, in.Pos(), l.what, fmt.Sprintf("what is done for one element depends on what %s holds from the elements before it, in the order of %s", c.name, l.what))
		}
		// is the instruction an effect other than updating the state itself?
		effect := func(in ssa.Instruction) bool {
			if c.writes[in] {
				return false
			}
			switch x := in.(type) {
			case *ssa.Store:
				return !l.own(x.Addr) && !isTimingType(x.Val.Type())
			case *ssa.MapUpdate:
				return !l.own(x.Map) && !isTimingType(x.Value.Type())
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Return:
				return true
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						// appending to the carried list itself is its update
						return !slice[x.Call.Args[0]] && !l.own(x.Call.Args[0]) && !isNilConst(x.Call.Args[0])
					case "delete", "copy", "clear":
						return !l.own(x.Call.Args[0])
					}
					return false
				}
				if isLogCall(&x.Call) {
					return false
				}
				why, eff := a.callOK(l, x)
				if why != "" || eff != "" {
					return true
				}
				g := x.Call.StaticCallee()
				if g == nil && !x.Call.IsInvoke() {
					g = a.localFn(x.Call.Value)
				}
				return g != nil && a.impure(a.w.real(g))
			}
			return false
		}
		onlyKey := func(in ssa.Instruction) bool {
			if c.key == nil {
				return false
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && l.derivedBut(*op, c.key, map[ssa.Value]bool{}) {
					return false
				}
			}
			return true
		}
		done := false
		for _, b := range l.fn.Blocks {
			if !l.body[b] || done {
				continue
			}
			for _, in := range b.Instrs {
				if done {
					break
				}
				if i, ok := in.(*ssa.If); ok {
					if !slice[i.Cond] {
						continue
					}
					for _, s := range b.Succs {
						if len(s.Preds) != 1 {
							continue
						}
						for _, b2 := range l.fn.Blocks {
							if !l.body[b2] && len(b2.Succs) > 0 || !s.Dominates(b2) {
								continue
							}
							if !l.body[b2] {
								continue
							}
							for _, in2 := range b2.Instrs {
								if effect(in2) && !onlyKey(in2) && !done {
									report(in2)
									done = true
								}
							}
						}
					}
					continue
				}
				if !effect(in) {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && slice[*op] {
						if _, isCall := in.(*ssa.Call); !isCall {
							if _, isRet := in.(*ssa.Return); !isRet && a.updates(in, *op) {
								continue
							}
						}
						if !done {
							report(in)
							done = true
						}
					}
				}
			}
		}
	}
}

// decided: values that differ by the way a branch goes.
func (l *ordLoop) decided(i *ssa.If) []ssa.Value {
	var r []ssa.Value
	for _, s := range i.Block().Succs {
		if len(s.Preds) != 1 || !l.body[s] {
			continue
		}
		for b := range l.body {
			if !s.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				al, ok := localCell(st.Addr)
				if !ok || !l.body[al.Block()] {
					continue
				}
				r = append(r, l.loadsOf(al)...)
			}
			for _, s2 := range b.Succs {
				if s.Dominates(s2) || !l.body[s2] || s2 == l.header {
					continue
				}
				for _, in := range s2.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						r = append(r, p)
					}
				}
			}
		}
	}
	return r
}

func (l *ordLoop) loadsOf(al *ssa.Alloc) []ssa.Value {
	var r []ssa.Value
	for b := range l.body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al2, ok := localCell(u.X); ok && al2 == al {
					r = append(r, u)
				}
			}
		}
	}
	return r
}

// impure: the function may have effects beyond its result.
func (a *ordAn) impure(f *ssa.Function) bool {
	if v, ok := a.pure[f]; ok {
		return v
	}
	if a.pure == nil {
		a.pure = map[*ssa.Function]bool{}
	}
	a.pure[f] = false
	if len(f.Blocks) == 0 || !isRepoPath(fnPkgPath(f)) || strings.HasPrefix(fnPkgPath(f), shimPrefix) {
		return false
	}
	res := len(a.s.effects(f)) > 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send, *ssa.Go:
				res = true
			case ssa.CallInstruction:
				c := x.Common()
				if _, bi := c.Value.(*ssa.Builtin); bi || c.IsInvoke() || isLogCall(c) {
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					g = a.localFn(c.Value)
				}
				if g == nil || a.impure(a.w.real(g)) {
					res = true
				}
			}
		}
	}
	a.pure[f] = res
	return res
}

// updates: the carried value is only the target of the write.
func (a *ordAn) updates(in ssa.Instruction, op ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return x.Addr == op && x.Val != op
	case *ssa.MapUpdate:
		return x.Map == op && x.Value != op && x.Key != op
	}
	return false
}

// derivedBut: v is computed from the element by another way than through key.
func (l *ordLoop) derivedBut(v, key ssa.Value, seen map[ssa.Value]bool) bool {
	if sameVal(v, key) {
		return false
	}
	if l.elems[v] {
		return true
	}
	if seen[v] || !l.in(v) {
		return false
	}
	seen[v] = true
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil && l.derivedBut(*op, key, seen) {
			return true
		}
	}
	return l.viaCell(v, func(x ssa.Value) bool { return l.derivedBut(x, key, seen) })
}

// reports: rules do not report in the order of a map.
func (a *ordAn) reports(l *ordLoop) {
	if a.reporters == nil {
		a.findReporters()
	}
	for _, b := range l.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if a.reportsCall(ci.Common()) {
				if n, known := a.sizeGuard(l); known && n <= 1 {
					continue
				}
				a.bad(l.fn, in.Pos(), l.what, "diagnostics of a file are reported in the order of "+l.what)
				return
			}
		}
	}
}

func (a *ordAn) reportsCall(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return false
	}
	if isReportFn(c.Value) {
		return true
	}
	f := c.StaticCallee()
	if f == nil {
		f = a.localFn(c.Value)
	}
	if f != nil && a.reporters[a.w.real(f)] {
		return true
	}
	for _, ar := range c.Args {
		if _, fn := ar.Type().Underlying().(*types.Signature); fn {
			if g := a.localFn(ar); g != nil && a.reporters[g] {
				return true
			}
		}
	}
	return false
}

func isReportFn(v ssa.Value) bool {
	var base ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			base = fa.X
		}
	case *ssa.Field:
		base = x.X
	}
	if base == nil {
		return false
	}
	n := namedOf(deref(base.Type()))
	return n != nil && n.Obj().Name() == "RuleContext" && typePkg(n) == pRule
}

func (a *ordAn) findReporters() {
	a.reporters = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f := range a.fns {
			if a.reporters[f] || !isRepoPath(fnPkgPath(f)) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && a.reportsCall(ci.Common()) {
						a.reporters[f] = true
						changed = true
					}
				}
			}
		}
	}
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func sameLoad(a, b ssa.Value) bool { return sameVal(a, b) }

func onlyConst(kinds map[string]bool) bool {
	for k := range kinds {
		if !strings.HasPrefix(k, "const:") {
			return false
		}
	}
	return true
}

func isLoopCounter(p *ssa.Phi, l *ordLoop) bool {
	// the index of the loop itself
	for k := range l.keys {
		if b, ok := k.(*ssa.BinOp); ok && (b.X == p || b.Y == p) {
			return true
		}
	}
	return p.Comment == "rangeindex"
}

func nameOfPhi(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func addrName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Comment
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		return "field " + fieldNameOf(x)
	}
	return "memory"
}

// callOK: the call may be made in any order. eff names its effect outside of the iteration.
func (a *ordAn) callOK(l *ordLoop, x *ssa.Call) (why, eff string) {
	c := &x.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !l.own(c.Args[0]) {
				return "", "deletes"
			}
		case "copy", "clear":
			if !l.own(c.Args[0]) {
				return "what " + b.Name() + " leaves behind depends on the order of " + l.what, ""
			}
		}
		return "", ""
	}
	if isLogCall(c) {
		return "", ""
	}
	if c.IsInvoke() {
		for _, m := range a.s.implementations(c) {
			if _, ok := a.s.mutates(m)[0]; ok && !l.own(c.Value) {
				return "the object modified by " + c.Method.Name() + " depends on the order of " + l.what, ""
			}
		}
		return "", ""
	}
	callee := c.StaticCallee()
	cp := calleePath(c)
	if i, ok := stdMutates(cp, c); ok && i < len(c.Args) {
		if !l.own(c.Args[i]) && !strings.HasPrefix(cp, "slices.Sort") {
			return "what " + cp + " builds depends on the order of " + l.what, ""
		}
		return "", ""
	}
	if callee == nil {
		// function values: the reporting functions, and local helpers
		if f := a.localFn(c.Value); f != nil {
			return a.bodyOK(l, f, nil, c)
		}
		return "", "calls a function value"
	}
	callee = a.w.real(callee)
	if len(callee.Blocks) == 0 {
		return "", ""
	}
	if isRepoPath(fnPkgPath(callee)) {
		return a.bodyOK(l, callee, c.Args, c)
	}
	return "", ""
}

// localFn: the function behind a local variable holding one closure.
func (a *ordAn) localFn(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.UnOp:
		cell := x.X
		for d := 0; d < 6; d++ {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			mcs := a.s.closures[fv.Parent()]
			if len(mcs) != 1 {
				return nil
			}
			for i, y := range fv.Parent().FreeVars {
				if y == fv {
					cell = mcs[0].Bindings[i]
				}
			}
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var f *ssa.Function
		for _, s := range storesTo(al) {
			g := a.localFn(s)
			if g == nil || f != nil && f != g {
				return nil
			}
			f = g
		}
		return f
	}
	return nil
}

// bodyOK: writes of a repo function as seen from the loop that calls it.
func (a *ordAn) bodyOK(l *ordLoop, f *ssa.Function, args []ssa.Value, c *ssa.CallCommon) (string, string) {
	eff := ""
	var walk func(f *ssa.Function, args []ssa.Value, depth int, seen map[*ssa.Function]bool) string
	walk = func(f *ssa.Function, args []ssa.Value, depth int, seen map[*ssa.Function]bool) string {
		if seen[f] || depth > 6 {
			return ""
		}
		seen[f] = true
		for _, e := range a.s.effects(f) {
			if _, ok := e.in.(ssa.CallInstruction); ok {
				if cc, ok := e.in.(*ssa.Call); ok {
					if cal := cc.Call.StaticCallee(); cal != nil && isRepoPath(fnPkgPath(a.w.real(cal))) {
						continue // its own body is examined below, through the roots of its parameters
					}
				}
			}
			if isTimingType(derefAll(e.ptr.Type())) || timingStore(e.ptr) {
				continue
			}
			for k := range a.s.roots(e.ptr) {
				if i, ok := paramIdx(k); ok {
					if args == nil || i >= len(args) || args[i] == nil || l.own(args[i]) {
						continue
					}
				} else if strings.HasPrefix(k, "^") {
					continue
				}
				// a set filled with constants, or a counter
				if mu, ok := e.in.(*ssa.MapUpdate); ok {
					if _, isC := mu.Value.(*ssa.Const); isC || isEmptyStruct(mu.Value.Type()) {
						eff = "fills a set"
						continue
					}
				}
				if st, ok := e.in.(*ssa.Store); ok {
					if _, isC := st.Val.(*ssa.Const); isC {
						eff = "sets a flag"
						continue
					}
					if mm, ok := st.Val.(*ssa.MakeMap); ok && mm != nil {
						continue // creation on first use
					}
				}
				return fmt.Sprintf("%s (called for every element) changes memory that outlives the element (%s at %s), in the order of %s", fnName(f), e.what, a.w.pos(e.in.Pos()), l.what)
			}
		}
		// captured variables of closures called by the loop
		if args == nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if _, fv := baseObj(st.Addr).(*ssa.FreeVar); fv {
							if _, isC := st.Val.(*ssa.Const); !isC {
								isP := func(v ssa.Value) bool {
									u, ok := v.(*ssa.UnOp)
									return ok && u.Op == token.MUL && sameVal(u.X, st.Addr)
								}
								ll := &ordLoop{fn: f, body: blocksOf(f)}
								kinds := map[string]bool{}
								if !ll.upd(st.Val, isP, kinds, map[ssa.Value]bool{}) || !compatible(kinds) || kinds["append"] {
									return fmt.Sprintf("%s changes a captured variable in the order of %s", fnName(f), l.what)
								}
							}
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := cc.Call.StaticCallee()
				if g == nil {
					continue
				}
				g = a.w.real(g)
				if len(g.Blocks) == 0 || !isRepoPath(fnPkgPath(g)) {
					continue
				}
				// map the arguments that come from our own parameters
				sub := make([]ssa.Value, len(cc.Call.Args))
				for i, ar := range cc.Call.Args {
					for k := range a.s.roots(ar) {
						if j, ok := paramIdx(k); ok && args != nil && j < len(args) {
							sub[i] = args[j]
						}
					}
				}
				if why := walk(g, sub, depth+1, seen); why != "" {
					return why
				}
			}
		}
		return ""
	}
	why := walk(f, args, 0, map[*ssa.Function]bool{})
	return why, eff
}

func blocksOf(f *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		m[b] = true
	}
	return m
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// timingStore: the pointer leads into the timing store.
func timingStore(v ssa.Value) bool {
	for d := 0; d < 10; d++ {
		if isTimingType(derefAll(v.Type())) {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Field:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// exits: leaving the loop before its end must not reveal which element came first.
func (a *ordAn) exits(l *ordLoop, effects []string) {
	f := l.fn
	fails := failingBlocks(f)
	size, known := a.sizeGuard(l)
	type exit struct {
		from, to *ssa.BasicBlock
	}
	var early []exit
	for _, b := range f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] || l.test != nil && b == l.test.Block() {
				continue
			}
			if fails[s] {
				continue
			}
			early = append(early, exit{b, s})
		}
	}
	normal := (*ssa.BasicBlock)(nil)
	if l.test != nil {
		for _, s := range l.test.Block().Succs {
			if !l.body[s] {
				normal = s
			}
		}
	}
	// values of the loop used behind it
	other := known && size == 2
	for _, b := range f.Blocks {
		if l.body[b] {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				if p, isPhi := in.(*ssa.Phi); isPhi && b == l.header {
					_ = p
					continue
				}
				for _, ref := range *v.Referrers() {
					rb := ref.Block()
					if rb == nil || l.body[rb] || fails[rb] {
						continue
					}
					if _, dbg := ref.(*ssa.DebugRef); dbg {
						continue
					}
					if logOnly(v, map[ssa.Value]bool{}) {
						continue
					}
					if !l.derived(v, map[ssa.Value]bool{}) && !l.dependsOnIter(v) {
						continue
					}
					if ph, ok := ref.(*ssa.Phi); ok {
						// the incoming edge decides
						bad := false
						for i, e := range ph.Edges {
							if e != v {
								continue
							}
							pb := rb.Preds[i]
							if l.test != nil && pb == l.test.Block() {
								continue
							}
							if other && l.notConst(pb) {
								continue
							}
							bad = true
						}
						if !bad {
							continue
						}
					} else if other && l.notConst(rb) {
						continue
					}
					a.bad(f, ref.Pos(), l.what, "the code behind the loop uses the element the loop stopped at, which depends on the order of "+l.what)
					return
				}
			}
		}
	}
	if len(early) == 0 {
		return
	}
	if len(effects) > 0 && !(known && size <= 2) {
		a.bad(f, l.pos, l.what, fmt.Sprintf("the loop may stop early after part of its work (%s): how much was done depends on the order of %s", strings.Join(uniq(effects), ", "), l.what))
		return
	}
	sig := map[string]bool{}
	for _, e := range early {
		sig[exitSig(e.from, e.to, normal)] = true
	}
	if len(sig) > 1 {
		a.bad(f, l.pos, l.what, "the loop stops early with different results, the first element met decides: depends on the order of "+l.what)
	}
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

// dependsOnIter: computed from calls or loads made inside the loop body.
func (l *ordLoop) dependsOnIter(v ssa.Value) bool {
	return l.dependsOn(v, func(x ssa.Value) bool { return l.elems[x] }, map[ssa.Value]bool{})
}

// notConst: the block is only entered for elements different from a constant.
func (l *ordLoop) notConst(b *ssa.BasicBlock) bool {
	for d := 0; d < 4; d++ {
		if len(b.Preds) != 1 {
			return false
		}
		p := b.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			b = p
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, y := c.X, c.Y
		if _, isC := x.(*ssa.Const); isC {
			x, y = y, x
		}
		if _, isC := y.(*ssa.Const); !isC || !l.keys[x] {
			return false
		}
		return c.Op == token.NEQ && p.Succs[0] == b || c.Op == token.EQL && p.Succs[1] == b
	}
	return false
}

// failingBlocks: from here every path ends in a panic or an error return.
func failingBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			m[b] = true
		case *ssa.Return:
			if len(x.Results) > 0 {
				last := x.Results[len(x.Results)-1]
				if isErrorT(last.Type()) && !isNilConst(last) {
					if errNonNil(last, b) {
						m[b] = true
					}
				}
			}
		}
	}
	// everything that cannot reach another way out
	ok := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if len(b.Succs) == 0 && !m[b] {
			ok[b] = true
			st = append(st, b)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range b.Preds {
			if !ok[p] {
				ok[p] = true
				st = append(st, p)
			}
		}
	}
	for _, b := range f.Blocks {
		if !ok[b] {
			m[b] = true
		}
	}
	return m
}

func errNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	if c, ok := v.(*ssa.Call); ok {
		switch calleePath(&c.Call) {
		case "fmt.Errorf", "errors.New", "errors.Join":
			return true
		}
	}
	if _, ok := v.(*ssa.MakeInterface); ok {
		return true
	}
	// guarded by v != nil
	for _, ref := range *v.Referrers() {
		c, ok := ref.(*ssa.BinOp)
		if !ok || c.Op != token.NEQ || !isNilConst(c.X) && !isNilConst(c.Y) {
			continue
		}
		for _, r2 := range *c.Referrers() {
			if i, ok := r2.(*ssa.If); ok {
				s := i.Block().Succs[0]
				if len(s.Preds) == 1 && (s == b || s.Dominates(b)) {
					return true
				}
			}
		}
	}
	return false
}

// exitSig describes where an early exit leads and with which constants.
func exitSig(from, to, normal *ssa.BasicBlock) string {
	// an otherwise empty block that jumps or returns constants
	b, prev := to, from
	for d := 0; d < 6; d++ {
		onlyJump := true
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Jump, *ssa.DebugRef, *ssa.Return, *ssa.RunDefers:
			case *ssa.Phi:
			default:
				onlyJump = false
			}
		}
		hasPhi := false
		if len(b.Instrs) > 0 {
			_, hasPhi = b.Instrs[0].(*ssa.Phi)
		}
		if !onlyJump {
			break
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s := "return"
			for _, v := range rt.Results {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
					v = phiIn(p, prev)
				}
				s += " " + sigVal(v)
			}
			return s
		}
		if hasPhi {
			break
		}
		if len(b.Succs) != 1 {
			break
		}
		prev, b = b, b.Succs[0]
	}
	s := fmt.Sprintf("block %d", b.Index)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s += " " + sigVal(phiIn(p, prev))
	}
	return s
}

func sigVal(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return v.Name()
}

func phiIn(p *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for i, b := range p.Block().Preds {
		if b == from {
			return p.Edges[i]
		}
	}
	return p
}

// ---- lists in arbitrary order ---------------------------------------------------

// totalSort: the call sorts its first argument into a unique order.
func (a *ordAn) totalSort(c *ssa.CallCommon) bool {
	switch cp := calleePath(c); cp {
	case "slices.Sort", "sort.Strings", "sort.Ints":
		return true
	case "slices.SortFunc", "slices.SortStableFunc":
		if len(c.Args) != 2 {
			return false
		}
		f := a.localFn(c.Args[1])
		if f == nil {
			return false
		}
		switch origin(f).RelString(nil) {
		case "strings.Compare", "cmp.Compare":
			return true
		}
		if len(f.Blocks) != 1 {
			return false
		}
		rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 1 {
			return false
		}
		cc, ok := rt.Results[0].(*ssa.Call)
		if !ok {
			return false
		}
		switch calleePath(&cc.Call) {
		case "strings.Compare", "cmp.Compare":
			if len(f.Params) == 2 && cc.Call.Args[0] != cc.Call.Args[1] {
				isP := func(v ssa.Value) bool { return v == f.Params[0] || v == f.Params[1] }
				return isP(cc.Call.Args[0]) && isP(cc.Call.Args[1])
			}
		}
	}
	return false
}

func origin(f *ssa.Function) *ssa.Function {
	if f.Origin() != nil {
		return f.Origin()
	}
	return f
}

// sortedFirst: from the given points every path sorts the list before any other use.
func (a *ordAn) sortedFirst(f *ssa.Function, starts []*ssa.BasicBlock, skip map[*ssa.BasicBlock]bool, isSort, isUse func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, starts...)
	found := false
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || skip[b] {
			continue
		}
		seen[b] = true
		sorted := false
		for _, in := range b.Instrs {
			if isSort(in) {
				sorted, found = true, true
				break
			}
			if isUse(in) {
				return false
			}
		}
		if sorted {
			continue
		}
		st = append(st, b.Succs...)
	}
	return found
}

func exitBlocks(l *ordLoop) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, b := range l.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				r = append(r, s)
			}
		}
	}
	return r
}

// taint: the list held by register v is in arbitrary order.
func (a *ordAn) taint(v ssa.Value, l *ordLoop, why string) {
	if a.done[v] {
		return
	}
	a.done[v] = true
	if l != nil {
		if a.sortedFirst(l.fn, exitBlocks(l), l.body, func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && a.totalSort(&c.Call) && c.Call.Args[0] == v
		}, func(in ssa.Instruction) bool {
			if _, dbg := in.(*ssa.DebugRef); dbg {
				return false
			}
			if c, ok := in.(*ssa.Call); ok && lenArg(c) != nil {
				return false
			}
			for _, op := range in.Operands(nil) {
				if *op == v {
					// preparing the argument of the sort call
					return true
				}
			}
			return false
		}) {
			return
		}
	}
	if v.Referrers() == nil {
		return
	}
	var f *ssa.Function
	if in, ok := v.(ssa.Instruction); ok {
		f = in.Parent()
	} else if p, ok := v.(*ssa.Parameter); ok {
		f = p.Parent()
	} else if p, ok := v.(*ssa.FreeVar); ok {
		f = p.Parent()
	}
	iters := itersIn(f)
	for _, ref := range *v.Referrers() {
		if l != nil && ref.Block() != nil && l.body[ref.Block()] {
			continue
		}
		a.use(f, iters, v, ref, why)
	}
}

func (a *ordAn) use(f *ssa.Function, iters []*Iter, v ssa.Value, ref ssa.Instruction, why string) {
	if failingBlocks(f)[ref.Block()] {
		return
	}
	switch x := ref.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		a.taint(x, nil, why)
	case *ssa.Slice:
		a.taint(x, nil, why)
	case *ssa.ChangeType:
		a.taint(x, nil, why)
	case *ssa.BinOp:
	case *ssa.MakeInterface:
		if !logOnly(x, map[ssa.Value]bool{}) {
			a.bad(f, x.Pos(), why, "is handed on as it is: "+why)
		}
	case *ssa.Store:
		if x.Val == v {
			a.taintCell(x.Addr, nil, x, why)
		}
	case *ssa.Return:
		for _, c := range a.calls[f] {
			if len(x.Results) == 1 {
				a.taint(c, nil, why)
				continue
			}
			for i, rv := range x.Results {
				if rv != v {
					continue
				}
				for _, r2 := range *c.Referrers() {
					if e, ok := r2.(*ssa.Extract); ok && e.Index == i {
						a.taint(e, nil, why)
					}
				}
			}
		}
	case *ssa.IndexAddr, *ssa.Index:
		idx := ssa.Value(nil)
		if ia, ok := x.(*ssa.IndexAddr); ok {
			idx = ia.Index
		} else {
			idx = x.(*ssa.Index).Index
		}
		if !a.iterate(f, iters, v, idx, ref, why) {
			a.bad(f, ref.Pos(), why, "an element is picked by its position in "+why)
		}
	case *ssa.Call:
		c := &x.Call
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				a.taint(x, nil, why)
			case "copy":
				a.bad(f, x.Pos(), why, "is copied: "+why)
			}
			return
		}
		if a.totalSort(c) || isLogCall(c) {
			return
		}
		cp := calleePath(c)
		switch {
		case strings.HasPrefix(cp, "slices.Sort"), strings.HasPrefix(cp, "sort."), cp == "slices.Contains", cp == "slices.Reverse":
			return
		case cp == "strings.Join":
			if logOnly(x, map[ssa.Value]bool{}) {
				return
			}
		case strings.HasPrefix(cp, "slices.Clone"), strings.HasPrefix(cp, "slices.Clip"), strings.HasPrefix(cp, "slices.Grow"):
			a.taint(x, nil, why)
			return
		case strings.HasPrefix(cp, "slices.Sorted"):
			return
		}
		if callee := c.StaticCallee(); callee != nil {
			callee = a.w.real(callee)
			if len(callee.Blocks) > 0 && isRepoPath(fnPkgPath(callee)) {
				for i, ar := range c.Args {
					if ar == v && i < len(callee.Params) {
						a.taint(callee.Params[i], nil, why)
					}
				}
				return
			}
		}
		a.bad(f, x.Pos(), why, fmt.Sprintf("%s receives %s", calleeLabel(c), why))
	default:
		a.bad(f, ref.Pos(), why, fmt.Sprintf("use of %s that is not understood (%T)", why, ref))
	}
}

// iterate: the indexed access belongs to a loop over all elements.
func (a *ordAn) iterate(f *ssa.Function, iters []*Iter, v, idx ssa.Value, ref ssa.Instruction, why string) bool {
	for _, it := range iters {
		if it.Kind != "slice" || !sameVal(it.Coll, v) || !it.Loop.Body[ref.Block()] {
			continue
		}
		if it.Index != idx {
			continue
		}
		l := &ordLoop{fn: f, body: it.Loop.Body, header: it.Loop.Header, test: it.If, coll: it.Coll, elems: map[ssa.Value]bool{}, keys: map[ssa.Value]bool{}, what: "the loop over " + why, pos: ref.Pos()}
		es, ks := it.ElemVals()
		for _, e := range es {
			l.elems[e] = true
			l.keys[e] = true
		}
		for _, k := range ks {
			_ = k // positions in an unordered list mean nothing
		}
		for _, in := range it.Loop.Header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if b, ok := it.Index.(*ssa.BinOp); ok && (b.X == p || b.Y == p) || it.Index == ssa.Value(p) {
					l.keys[it.Index] = true
				}
			}
		}
		a.loop(l)
		return true
	}
	return false
}

// taintCell: a memory cell holds a list in arbitrary order.
func (a *ordAn) taintCell(addr ssa.Value, l *ordLoop, at *ssa.Store, why string) {
	f := at.Parent()
	// sorted in place before anything else sees it
	sameCell := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && sameVal(u.X, addr)
	}
	sortLoads := map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && a.totalSort(&c.Call) && sameCell(c.Call.Args[0]) {
				sortLoads[c.Call.Args[0].(ssa.Instruction)] = true
			}
		}
	}
	isSort := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && a.totalSort(&c.Call) && sameCell(c.Call.Args[0])
	}
	root := baseObj(addr)
	isUse := func(in ssa.Instruction) bool {
		if sortLoads[in] {
			return false
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			return sameVal(x.X, addr) || x.X == root
		case *ssa.Return:
			return true
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				if b == root {
					return true
				}
			}
		case ssa.CallInstruction:
			for _, ar := range x.Common().Args {
				if ar == root || ar == addr {
					return true
				}
			}
		}
		return false
	}
	if l != nil {
		if a.sortedFirst(f, exitBlocks(l), l.body, isSort, isUse) {
			return
		}
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		a.taintField(fa, why, false)
		return
	}
	if al, ok := localCell(addr); ok {
		a.taintLoads(al, l, why)
		return
	}
	switch x := addr.(type) {
	case *ssa.FreeVar:
		for _, mc := range a.s.closures[x.Parent()] {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						a.taintLoads(al, nil, why)
					}
				}
			}
		}
		return
	}
	a.bad(f, at.Pos(), why, "is stored where its uses cannot be followed: "+why)
}

func (a *ordAn) taintLoads(al ssa.Value, l *ordLoop, why string) {
	if a.done[al] {
		return
	}
	a.done[al] = true
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			if l != nil && l.body[x.Block()] {
				continue
			}
			if a.afterSort(x) {
				continue
			}
			a.taint(x, nil, why)
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == al {
					a.taintLoads(fn.FreeVars[i], nil, why)
				}
			}
		case *ssa.IndexAddr:
			// varargs array
			if arr, ok := al.(*ssa.Alloc); ok && logOnly(arr, map[ssa.Value]bool{}) {
				continue
			}
		}
	}
}

// afterSort: the load is dominated by a sort of the same cell.
func (a *ordAn) afterSort(ld *ssa.UnOp) bool {
	for _, b := range ld.Parent().Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !a.totalSort(&c.Call) {
				continue
			}
			u, ok := c.Call.Args[0].(*ssa.UnOp)
			if !ok || !sameVal(u.X, ld.X) {
				continue
			}
			if b == ld.Block() {
				for j, x := range b.Instrs {
					if x == ssa.Instruction(ld) && j > i {
						return true
					}
				}
			} else if b.Dominates(ld.Block()) {
				return true
			}
		}
	}
	return false
}

// taintField: a struct field holds a list (or a map of lists) in arbitrary order.
func (a *ordAn) taintField(fa *ssa.FieldAddr, why string, isMap bool) {
	fv, _, ok := fieldOf(fa)
	if !ok {
		return
	}
	key := fmt.Sprint(a.w.pos(fv.Pos()), fv.Name(), isMap)
	if a.fields[key] {
		return
	}
	a.fields[key] = true
	for f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if g, _, ok := fieldOf(x); ok && g == fv {
						for _, ref := range *x.Referrers() {
							if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
								if isMap {
									a.taintMap(u, nil, why)
								} else if !a.afterSort(u) && !inMapLoopStore(u, fv) {
									a.taint(u, nil, why)
								}
							}
						}
					}
				case *ssa.Field:
					if g, _, ok := fieldOf(x); ok && g == fv {
						if isMap {
							a.taintMap(x, nil, why)
						} else {
							a.taint(x, nil, why)
						}
					}
				}
			}
		}
	}
}

// inMapLoopStore: the load only feeds the append that extends the same field.
func inMapLoopStore(u *ssa.UnOp, fv *types.Var) bool {
	for _, ref := range *u.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		for _, r2 := range *c.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok {
				return false
			}
			g, _, ok := fieldOf(st.Addr)
			if !ok || g != fv {
				return false
			}
		}
	}
	return true
}

// taintMap: the values of the map are lists in arbitrary order.
func (a *ordAn) taintMap(m ssa.Value, l *ordLoop, why string) {
	if a.doneM[m] {
		return
	}
	a.doneM[m] = true
	if u, ok := m.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			a.taintField(fa, why, true)
		} else if al, ok := localCell(u.X); ok {
			for _, ref := range *al.Referrers() {
				if x, ok := ref.(*ssa.UnOp); ok {
					a.taintMap(x, nil, why)
				}
			}
		}
	}
	for _, st := range refsOf(m) {
		switch x := st.(type) {
		case *ssa.Store:
			if x.Val == m {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					a.taintField(fa, why, true)
				}
			}
		case *ssa.Range:
			for _, r2 := range *x.Referrers() {
				nx, ok := r2.(*ssa.Next)
				if !ok {
					continue
				}
				for _, r3 := range *nx.Referrers() {
					if e, ok := r3.(*ssa.Extract); ok && e.Index == 2 {
						a.taint(e, nil, why)
					}
				}
			}
		case *ssa.Lookup:
			if x.X != m {
				continue
			}
			if onlyExtends(x, m) {
				continue
			}
			if x.CommaOk {
				for _, r2 := range *x.Referrers() {
					if e, ok := r2.(*ssa.Extract); ok && e.Index == 0 {
						a.taint(e, nil, why)
					}
				}
			} else {
				a.taint(x, nil, why)
			}
		case *ssa.Call:
			if callee := x.Call.StaticCallee(); callee != nil && len(callee.Blocks) > 0 && isRepoPath(fnPkgPath(callee)) {
				for i, ar := range x.Call.Args {
					if ar == m && i < len(callee.Params) {
						a.taintMap(callee.Params[i], nil, why)
					}
				}
			}
		case *ssa.Return:
			for _, c := range a.calls[x.Parent()] {
				a.taintMap(c, nil, why)
			}
		}
	}
}

func refsOf(v ssa.Value) []ssa.Instruction {
	if v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

// onlyExtends: the entry is looked up only to append to it.
func onlyExtends(lk *ssa.Lookup, m ssa.Value) bool {
	for _, ref := range *lk.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
	}
	return true
}

// ---- the check --------------------------------------------------------------------

func checkC09(r *R) {
	r.Rule("map-order", "no loop over a map, and no list filled in the order of a map or of finishing goroutines, lets that order decide what is reported: loop bodies only do what commutes, stop early only with one constant result, and such lists are sorted, counted, or used as sets")
	r.Rule("no-clock", "clock readings flow into timings and log lines only")
	r.Rule("no-chance", "no random numbers, hash seeds, addresses, goroutine timing or counts of processors decide what is reported")
	r.Rule("no-numbering", "internal numbers of types, symbols and nodes, which depend on the order of checking, are never ordered or printed")
	w := r.W
	a := &ordAn{r: r, w: w, s: newSharedRoots(w), fns: reachRepo(w), done: map[ssa.Value]bool{}, doneM: map[ssa.Value]bool{}, doneL: map[*ssa.BasicBlock]bool{}, fields: map[string]bool{}, calls: map[*ssa.Function][]*ssa.Call{}}
	var fns []*ssa.Function
	for f := range a.fns {
		if isRepoPath(fnPkgPath(f)) && !strings.HasPrefix(fnPkgPath(f), shimPrefix) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].Pos() != fns[j].Pos() {
			return fns[i].Pos() < fns[j].Pos()
		}
		return fns[i].String() < fns[j].String()
	})
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					g := c.Call.StaticCallee()
					if g == nil && !c.Call.IsInvoke() {
						g = a.localFn(c.Call.Value)
					}
					if g != nil {
						a.calls[g] = append(a.calls[g], c)
					}
				}
			}
		}
	}
	spawned := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					if g := a.localFn(ci.Common().Value); g != nil {
						spawned[g] = true
					}
				}
				if k, ok := spawnKind(ci.Common()); ok && k != kCallback {
					for _, ar := range ci.Common().Args {
						if g := a.localFn(ar); g != nil {
							spawned[g] = true
						}
					}
				}
			}
		}
	}
	maps := 0
	for _, f := range fns {
		loops := loopsOf(f)
		iters := itersIn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					rg, ok := x.Iter.(*ssa.Range)
					if !ok || !isMapT(rg.X.Type()) {
						continue
					}
					maps++
					var lp *Loop
					for _, l := range loops {
						if l.Body[b] && (lp == nil || len(l.Body) < len(lp.Body)) {
							lp = l
						}
					}
					if lp == nil {
						// the first element only
						a.bad(f, rg.Pos(), "loop over a map", "only the first element of a map is looked at")
						continue
					}
					l := &ordLoop{fn: f, body: lp.Body, header: lp.Header, coll: rg.X, elems: map[ssa.Value]bool{}, keys: map[ssa.Value]bool{}, what: "the loop over the map " + mapName(rg.X), pos: rg.Pos()}
					if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						l.test = i
					}
					l.elems[x] = true
					for _, ref := range *x.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index > 0 {
							l.elems[e] = true
							if e.Index == 1 {
								l.keys[e] = true
							}
						}
					}
					a.loop(l)
				case *ssa.UnOp:
					if x.Op != token.ARROW || spawned[f] {
						continue
					}
					for _, it := range iters {
						if it.Kind == "chan" && it.Source == ssa.Value(x) {
							l := &ordLoop{fn: f, body: it.Loop.Body, header: it.Loop.Header, test: it.If, coll: x.X, elems: map[ssa.Value]bool{ssa.Value(x): true}, keys: map[ssa.Value]bool{}, what: "the loop over results of goroutines", anyKey: true, pos: x.Pos()}
							es, _ := it.ElemVals()
							for _, e := range es {
								l.elems[e] = true
							}
							if !feedsLint(f) {
								a.loop(l)
							}
						}
					}
				case *ssa.Select:
					r.Bad("no-chance", "select in "+fnName(f), w.pos(x.Pos()), "which case runs depends on timing")
				case *ssa.Store:
					// results collected by goroutines
					if !spawned[f] {
						continue
					}
					fv, ok := x.Addr.(*ssa.FreeVar)
					if !ok {
						continue
					}
					a.collected(f, fv, x)
				case ssa.CallInstruction:
					a.chance(f, in, x.Common())
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						r.Bad("no-chance", "address in "+fnName(f), w.pos(x.Pos()), "an address is turned into a number")
					}
				case *ssa.BinOp:
					a.numbering(f, x)
				}
			}
		}
		r.Ob("no-chance", fnName(f), true, w.pos(f.Pos()), "")
	}
	r.Info["map_loops"] = maps
	r.Info["loops_examined"] = a.n
	r.Info["functions"] = len(fns)
	r.Min("map-order", 15)
	r.Min("no-chance", 1200)
	r.Min("no-clock", 2)
}

// feedsLint: loops of the linter over work queues; their per-file state is the subject of C05.
func feedsLint(f *ssa.Function) bool { return false }

func mapName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return fieldNameOf(y)
		case *ssa.Alloc:
			return y.Comment
		case *ssa.FreeVar:
			return y.Name()
		case *ssa.Global:
			return y.Name()
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Call:
		return "returned by " + calleeLabel(&x.Call)
	case *ssa.Field:
		if fv, _, ok := fieldOf(x); ok {
			return fv.Name()
		}
	}
	return strings.TrimPrefix(v.Type().String(), "map")
}

// collected: a goroutine stores into a variable of its creator.
func (a *ordAn) collected(f *ssa.Function, fv *ssa.FreeVar, x *ssa.Store) {
	if isTimingType(x.Val.Type()) || isErrorT(x.Val.Type()) {
		return
	}
	l := &ordLoop{fn: f, body: blocksOf(f), header: f.Blocks[0], elems: map[ssa.Value]bool{}, keys: map[ssa.Value]bool{}, what: "finishing goroutines"}
	isP := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(fv)
	}
	kinds := map[string]bool{}
	if !l.upd(x.Val, isP, kinds, map[ssa.Value]bool{}) || !compatible(kinds) {
		several := false
		for _, mc := range a.s.closures[f] {
			for _, lp := range loopsOf(mc.Parent()) {
				if lp.Body[mc.Block()] {
					several = true
				}
			}
			for _, ref := range *mc.Referrers() {
				if ci, ok := ref.(ssa.CallInstruction); ok {
					if k, _ := spawnKind(ci.Common()); k == kParallel {
						several = true
					}
				}
			}
		}
		if several {
			a.bad(f, x.Pos(), "goroutine result", "the last goroutine to finish decides the value of "+fv.Name())
		}
		return
	}
	if kinds["append"] {
		for _, mc := range a.s.closures[f] {
			for i, y := range f.FreeVars {
				if y == fv {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						a.n++
						before := len(a.r.Violations)
						a.taintLoads(al, nil, "a list filled in the order in which goroutines finish")
						if len(a.r.Violations) == before {
							a.r.Ob("map-order", "list "+fv.Name()+" of "+fnName(f), true, a.w.pos(x.Pos()), "")
						}
					}
				}
			}
		}
	}
}

// chance: sources of nondeterminism outside the program.
func (a *ordAn) chance(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon) {
	cp := calleePath(c)
	r, w := a.r, a.w
	pkg := ""
	if i := strings.LastIndexByte(cp, '.'); i > 0 {
		pkg = cp[:i]
	}
	switch {
	case cp == "time.Now" || cp == "time.Since" || cp == "time.Until":
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		bad := ""
		if p := fnPkgPath(f); strings.HasPrefix(p, pRules) || p == pRule {
			bad = "rule code reads the clock"
		} else {
			bad = timeFlow(v, map[ssa.Value]bool{})
		}
		r.Ob("no-clock", cp+" in "+fnName(f), bad == "", w.pos(in.Pos()), bad)
	case strings.HasPrefix(cp, "math/rand"), strings.HasPrefix(cp, "crypto/rand"), strings.HasPrefix(cp, "hash/maphash"), cp == "os.Getpid", cp == "os.Getppid", cp == "runtime.NumGoroutine", cp == "os.Hostname", cp == "runtime.ReadMemStats", cp == "time.After", cp == "time.AfterFunc", cp == "time.NewTimer", cp == "time.Tick", cp == "time.NewTicker", cp == "context.WithTimeout", cp == "context.WithDeadline", cp == "runtime.Stack", cp == "sync.Map.Range", strings.HasPrefix(cp, "sync.Mutex.Try"), cp == "sync.RWMutex.TryLock", cp == "sync.RWMutex.TryRLock", strings.HasPrefix(cp, "reflect.Value.MapRange"), strings.HasPrefix(cp, "reflect.Value.MapKeys"):
		r.Bad("no-chance", cp+" in "+fnName(f), w.pos(in.Pos()), "differs from run to run")
	case cp == "reflect.Value.Pointer", cp == "reflect.Value.UnsafeAddr":
		r.Bad("no-chance", cp+" in "+fnName(f), w.pos(in.Pos()), "an address differs from run to run")
	case cp == "maps.Keys", cp == "maps.Values", cp == "maps.All":
		v := in.(ssa.Value)
		a.n++
		bad := ""
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				switch p := calleePath(&x.Call); {
				case p == "slices.Sorted", p == "maps.Collect", p == "maps.Insert":
				case p == "slices.Collect":
					if !a.sortedFirst(f, []*ssa.BasicBlock{x.Block()}, nil, func(in ssa.Instruction) bool {
						c, ok := in.(*ssa.Call)
						return ok && a.totalSort(&c.Call) && c.Call.Args[0] == ssa.Value(x)
					}, func(in ssa.Instruction) bool {
						if in == ssa.Instruction(x) {
							return false
						}
						for _, op := range in.Operands(nil) {
							if *op == ssa.Value(x) {
								return true
							}
						}
						return false
					}) {
						a.taint(x, nil, "a list filled in the order of a map")
					}
				default:
					bad = "the elements of a map are used in arbitrary order"
				}
			default:
				bad = "the elements of a map are used in arbitrary order"
			}
		}
		// iteration by a range statement: the loop body is a closure
		if bad != "" {
			if ok, why := a.rangeFunc(f, v); ok {
				bad = why
			}
		}
		r.Ob("map-order", cp+" in "+fnName(f), bad == "", w.pos(in.Pos()), bad)
	case strings.HasPrefix(cp, "fmt."):
		for _, ar := range c.Args {
			if s, ok := constStr(ar); ok && strings.Contains(strings.ReplaceAll(s, "%%", ""), "%p") && !isLogCall(c) {
				r.Bad("no-chance", "%p in "+fnName(f), w.pos(in.Pos()), "an address is printed")
			}
		}
	}
	_ = pkg
}

// rangeFunc: v is called with the body of a range statement.
func (a *ordAn) rangeFunc(f *ssa.Function, v ssa.Value) (bool, string) {
	for _, ref := range *v.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok || c.Call.Value != v || len(c.Call.Args) != 1 {
			if _, dbg := ref.(*ssa.DebugRef); dbg {
				continue
			}
			return false, ""
		}
		body := a.localFn(c.Call.Args[0])
		if body == nil {
			return false, ""
		}
		l := &ordLoop{fn: body, body: blocksOf(body), header: body.Blocks[0], elems: map[ssa.Value]bool{}, keys: map[ssa.Value]bool{}, what: "the elements of a map"}
		for i, p := range body.Params {
			l.elems[p] = true
			if i == 0 {
				l.keys[p] = true
			}
		}
		// the body answers whether to go on: only "yes" keeps the order out of sight
		for _, b := range body.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(rt.Results) != 1 {
					return false, ""
				}
				if v, ok := constBool(rt.Results[0]); !ok || !v {
					return true, "the loop over a map stops early"
				}
			}
		}
		a.loop(l)
	}
	return true, ""
}

// timeFlow: clock values only reach durations kept for timings, and logs.
func timeFlow(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := localCell(x.Addr); ok {
				for _, r2 := range *al.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok {
						if s := timeFlow(u, seen); s != "" {
							return s
						}
					}
				}
				continue
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isTimingType(fa.X.Type()) {
				continue
			}
			return "a clock reading is stored outside of the timings"
		case *ssa.Call:
			if isLogCall(&x.Call) {
				continue
			}
			if g := x.Call.StaticCallee(); g != nil && fnPkgPath(g) == "time" {
				if s := timeFlow(x, seen); s != "" {
					return s
				}
				continue
			}
			sg := x.Call.Signature()
			ok := false
			for i := 0; i < sg.Params().Len(); i++ {
				if isTimingType(sg.Params().At(i).Type()) {
					ok = true
				}
			}
			if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && isTimingType(g.Signature.Recv().Type()) {
				ok = true
			}
			if !ok {
				return "a clock reading is passed to " + calleeLabel(&x.Call)
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract:
			if mi, ok := x.(*ssa.MakeInterface); ok && logOnly(mi, map[ssa.Value]bool{}) {
				continue
			}
			if s := timeFlow(x.(ssa.Value), seen); s != "" {
				return s
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB:
				if s := timeFlow(x, seen); s != "" {
					return s
				}
			default:
				return "a decision depends on the clock"
			}
		default:
			return fmt.Sprintf("a clock reading is used by %T", ref)
		}
	}
	return ""
}

// numbering: ids of types, symbols and nodes.
func (a *ordAn) numbering(f *ssa.Function, x *ssa.BinOp) {
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ, token.SUB:
	default:
		return
	}
	for _, v := range []ssa.Value{x.X, x.Y} {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		n := namedOf(v.Type())
		if n == nil {
			continue
		}
		switch n.Obj().Name() {
		case "TypeId", "SymbolId", "NodeId", "FlowNodeId", "MergeId":
			if isTsgoPath(typePkg(n)) {
				a.r.Bad("no-numbering", n.Obj().Name()+" in "+fnName(f), a.w.pos(x.Pos()), "internal numbers are ordered; they depend on what the type checker happened to check before")
				return
			}
		}
	}
}

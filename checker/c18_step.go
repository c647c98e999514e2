package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *kAn) oblige(fr *kFrame, in ssa.Instruction, rule, what string, pos token.Pos, bad string) {
	if fr.quiet || !isRepoPath(fnPkgPath(fr.fn)) {
		if bad != "" {
			fr.bad = append(fr.bad, bad)
		}
		return
	}
	m := a.obls[in]
	if m == nil {
		m = map[string]*kObl{}
		a.obls[in] = m
	}
	o := m[rule+what]
	if o == nil {
		o = &kObl{fn: fr.fn, rule: rule, what: what, pos: pos}
		m[rule+what] = o
	}
	o.times++
	if bad != "" && o.bad == "" {
		o.bad = bad
		from := ""
		for u := fr.up; u != nil; u = u.up {
			if isRepoPath(fnPkgPath(u.fn)) && u.fn.Synthetic == "" {
				from += ", called from " + fnName(u.fn)
			}
		}
		if from != "" {
			o.bad += " (" + from[2:] + ")"
		}
	}
}

// needs: the value is used as something that exists. Facts go on with it being there.
func (a *kAn) needs(fr *kFrame, e *kEnv, in ssa.Instruction, v ssa.Value, what string, pos token.Pos) bool {
	if !nilable(v.Type()) {
		return true
	}
	switch v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar, *ssa.Function, *ssa.MakeClosure:
		return true
	}
	s := a.eval(e, v)
	bad := ""
	if s.has(ksNil) && !(nodeMethod(fr.fn) && len(fr.fn.Params) > 0 && a.eval(e, fr.fn.Params[0]).has(ksLost)) {
		bad = fmt.Sprintf("%s can be nil here", a.name(v))
	}
	a.oblige(fr, in, "present", what, pos, bad)
	if k := a.key(v); k != nil {
		n := s.minus(ksEither)
		if n.empty() {
			return s.empty() || !s.has(ksNil)
		}
		if n != s {
			e.set(k, n)
		}
	}
	return true
}

func (a *kAn) name(v ssa.Value) string {
	if k := a.key(v); k != nil {
		return k.String()
	}
	return v.Name()
}

func (a *kAn) block(fr *kFrame, b *ssa.BasicBlock, e *kEnv) *kEnv {
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				// defined anew
				if m := a.roots[v]; len(m) > 0 {
					for _, k := range m {
						a.kill(e, k)
					}
				}
			}
		}
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if !a.needs(fr, e, in, x.X, "the value whose "+fieldNm(x)+" is used", x.Pos()) {
				return nil
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a.load(e, x)
			}
		case *ssa.Alloc:
			a.alloc(e, x)
		case *ssa.Store:
			a.store(fr, e, x)
		case *ssa.MapUpdate:
			a.mapUpdate(fr, e, x)
		case *ssa.MakeClosure:
			a.makeClosure(e, x)
		case *ssa.Lookup:
			a.lookupMap(e, x)
		case *ssa.TypeAssert:
			a.typeAssert(fr, e, x)
		case *ssa.Slice:
			a.slice(e, x)
		case *ssa.Next:
			a.next(e, x)
		case *ssa.Call:
			if e = a.call(fr, e, x, x); e == nil {
				return nil
			}
		case *ssa.Defer:
			if e = a.call(fr, e, x, nil); e == nil {
				return nil
			}
		case *ssa.Go:
			if q := a.call(fr, e.clone(), x, nil); q == nil {
				_ = q
			}
		case *ssa.Panic:
			if s := panicText(x); !fr.quiet {
				if nodeMethod(fr.fn) && len(fr.fn.Params) > 0 {
					if a.eval(e, fr.fn.Params[0]).has(ksLost) {
						return nil
					}
					s += " for kind " + a.g.show(a.eval(e, fr.fn.Params[0]).minus(ksUnknown))
				}
				fr.bad = append(fr.bad, "it panics: "+s)
			}
			return nil
		case *ssa.Return:
			a.ret(fr, e, x)
			return nil
		}
	}
	return e
}

func panicText(p *ssa.Panic) string {
	if mi, ok := p.X.(*ssa.MakeInterface); ok {
		if s, ok := constStr(mi.X); ok {
			return s
		}
	}
	return "explicitly"
}

func fieldNm(x *ssa.FieldAddr) string { n, _ := fieldName(x.X.Type(), x.Field); return n }

func (a *kAn) load(e *kEnv, x *ssa.UnOp) {
	ia, ok := x.X.(*ssa.IndexAddr)
	if !ok || !a.tracked(x.Type()) {
		return
	}
	if k := a.key(x); k != nil && k.v != ssa.Value(x) {
		return // a named element
	}
	k := a.rootKey(x, 0, x.Type())
	if l := a.key(ia.X); l != nil {
		s := a.elemFacts(e, l, x.Type())
		if s.empty() {
			s = a.top(x.Type())
		}
		if s.has(ksNil) {
			s.del(ksNil)
			s.add(ksMaybe)
		}
		e.set(k, s)
		if l.op == ".nodes" && l.up != nil && l.up.up != nil {
			if ns, ok := a.g.nodeStruct(l.up.up.typ); ok {
				p := a.lookup(e, l.up.up).and(ns)
				p = p.minus(ksEither)
				e.set(a.child(k, ".Parent", l.up.up.typ), p)
			}
		}
	}
}

func (a *kAn) next(e *kEnv, x *ssa.Next) {
	r, ok := x.Iter.(*ssa.Range)
	if !ok {
		return
	}
	mt, ok := r.X.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	if f := a.fields["map "+mt.String()]; f != nil && a.tracked(mt.Elem()) {
		if s, ok := f.get(a.results[0]); ok {
			e.set(a.rootKey(x, 3, mt.Elem()), s)
		}
	}
	if f := a.fields["key "+mt.String()]; f != nil && a.tracked(mt.Key()) {
		if s, ok := f.get(a.results[0]); ok {
			e.set(a.rootKey(x, 2, mt.Key()), s)
		}
	}
}

func (a *kAn) alloc(e *kEnv, x *ssa.Alloc) {
	k := a.rootKey(x, 0, deref(x.Type()))
	switch t := deref(x.Type()).Underlying().(type) {
	case *types.Array:
		if a.tracked(t.Elem()) {
			e.set(a.child(k, "[*]", t.Elem()), KS{})
		}
	case *types.Struct:
		if isAstT(x.Type()) {
			return
		}
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); nilable(f.Type()) {
				fk := a.child(k, "."+f.Name(), f.Type())
				e.set(fk, ksJustNil)
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && a.tracked(sl.Elem()) {
					e.set(a.child(fk, "[*]", sl.Elem()), KS{})
				}
			}
		}
	default:
		if nilable(k.typ) && a.single(x) == nil {
			e.set(k, ksJustNil)
			n := envOf(a.results[0], ksMaybeNil)
			if sl, ok := k.typ.Underlying().(*types.Slice); ok && a.tracked(sl.Elem()) {
				e.set(a.child(k, "[*]", sl.Elem()), KS{})
				n.set(a.child(a.results[0], "[*]", sl.Elem()), KS{})
			}
			a.cellsN[k] = note(a.cellsN[k], n)
		}
	}
}

func (a *kAn) store(fr *kFrame, e *kEnv, x *ssa.Store) {
	switch ad := x.Addr.(type) {
	case *ssa.IndexAddr:
		if l := a.key(ad.X); l != nil && a.tracked(x.Val.Type()) {
			el := a.child(l, "[*]", x.Val.Type())
			s := a.eval(e, x.Val)
			if old, ok := e.get(el); ok {
				s = s.or(old)
			} else {
				s = s.or(a.elemFacts(e, l, x.Val.Type()))
			}
			e.set(el, s)
		}
		return
	case *ssa.FieldAddr:
		if isAstT(ad.X.Type()) {
			return
		}
		n, _ := fieldName(ad.X.Type(), ad.Field)
		k := a.key(ad)
		if a.tracked(x.Val.Type()) || isStructT(x.Val.Type()) {
			if nn := namedOf(deref(ad.X.Type())); nn != nil && nn.Obj().Pkg() != nil {
				b := newKEnv()
				a.bundle(e, x.Val, a.results[0], b)
				fk := nn.Obj().Pkg().Path() + "." + nn.Obj().Name() + "." + n
				a.fieldsN[fk] = note(a.fieldsN[fk], soft(b))
			}
		}
		e.drop(func(q *kKey) bool {
			return q.op == "."+n && q != k && q.up != nil && q.up.typ != nil && types.Identical(deref(q.up.typ), deref(ad.X.Type()))
		})
		if k != nil {
			a.assign(e, k, x.Val)
		}
		return
	}
	var cell *ssa.Alloc
	switch ad := x.Addr.(type) {
	case *ssa.Alloc:
		cell = ad
	case *ssa.FreeVar:
		cell = a.cellOf(ad)
	}
	if cell == nil {
		return
	}
	k := a.rootKey(cell, 0, deref(cell.Type()))
	b := newKEnv()
	a.bundle(e, x.Val, a.results[0], b)
	a.cellsN[k] = note(a.cellsN[k], soft(b))
	a.assign(e, k, x.Val)
}

// assign: k is now v.
func (a *kAn) assign(e *kEnv, k *kKey, v ssa.Value) {
	add := newKEnv()
	a.bundle(e, v, k, add)
	e.drop(func(q *kKey) bool {
		for p := q; p != nil; p = p.up {
			if p == k {
				return true
			}
		}
		return false
	})
	for q, s := range add.all() {
		e.set(q, s)
	}
}

func (a *kAn) mapUpdate(fr *kFrame, e *kEnv, x *ssa.MapUpdate) {
	if n := namedOf(x.Map.Type()); n != nil && n.Obj().Name() == "RuleListeners" {
		s := a.eval(e, x.Key)
		if bt := namedOf(x.Key.Type()); bt == nil || !isKindT(x.Key.Type()) {
			s = a.g.all
		}
		for _, f := range a.targets(fr, x.Value) {
			if len(f.Params) == 0 {
				continue
			}
			in := envOf(a.rootKey(f.Params[0], 0, f.Params[0].Type()), s)
			a.root(f, in)
		}
		return
	}
	mt, ok := x.Map.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	if a.tracked(mt.Elem()) {
		b := newKEnv()
		a.bundle(e, x.Value, a.results[0], b)
		a.fieldsN["map "+mt.String()] = note(a.fieldsN["map "+mt.String()], soft(b))
	}
	if a.tracked(mt.Key()) {
		b := newKEnv()
		a.bundle(e, x.Key, a.results[0], b)
		a.fieldsN["key "+mt.String()] = note(a.fieldsN["key "+mt.String()], soft(b))
	}
	if isFuncT(mt.Elem()) {
		a.escape(fr, e, x.Value)
	}
}

func (a *kAn) lookupMap(e *kEnv, x *ssa.Lookup) {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok || !a.tracked(mt.Elem()) {
		return
	}
	s := a.top(mt.Elem())
	if f := a.fields["map "+mt.String()]; f != nil {
		if t, ok := f.get(a.results[0]); ok {
			s = t
		}
	}
	if nilable(mt.Elem()) {
		s = s.or(ksJustNil)
	}
	i := 0
	if x.CommaOk {
		i = 1
	}
	k := a.rootKey(x, i, mt.Elem())
	e.set(k, s)
	// parts of nodes stay as they were when the node was put in
	if f := a.fields["map "+mt.String()]; f != nil && isAstT(mt.Elem()) {
		for _, q := range f.keys() {
			if q.root == a.results[0] && q.up != nil {
				if n := a.rebase(q, a.results[0], k); n != nil {
					if t := a.lookup(e, n).and(f.at(q)); !t.empty() {
						e.set(n, t)
					}
				}
			}
		}
	}
}

func (a *kAn) typeAssert(fr *kFrame, e *kEnv, x *ssa.TypeAssert) {
	i := 0
	if x.CommaOk {
		i = 1
	}
	k := a.rootKey(x, i, x.AssertedType)
	s := a.top(x.AssertedType)
	if x.CommaOk && nilable(x.AssertedType) {
		s = s.or(ksJustNil)
	}
	if a.tracked(x.AssertedType) {
		e.set(k, s)
	}
}

func (a *kAn) slice(e *kEnv, x *ssa.Slice) {
	sl, ok := x.Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	k := a.rootKey(x, 0, x.Type())
	e.set(k, ksJustOther)
	if !a.tracked(sl.Elem()) {
		return
	}
	if l := a.key(x.X); l != nil {
		e.set(a.child(k, "[*]", sl.Elem()), a.elemFacts(e, l, sl.Elem()))
	}
}

func (a *kAn) makeClosure(e *kEnv, x *ssa.MakeClosure) {
	g := x.Fn.(*ssa.Function)
	b := newKEnv()
	roots := a.freeRoots(g)
	for k, s := range e.all() {
		if roots[k.root] {
			b.set(k, s)
		}
	}
	for r := range roots {
		if _, ok := b.get(r); !ok && a.tracked(r.typ) {
			b.set(r, a.lookup(e, r))
		}
	}
	a.closN[g] = note(a.closN[g], b)
}

// freeRoots: the values of outer functions that g and the closures in it use, as far as
// they do not change.
func (a *kAn) freeRoots(g *ssa.Function) map[*kKey]bool {
	r := map[*kKey]bool{}
	for _, fv := range g.FreeVars {
		if k := a.key(fv); k != nil {
			if al, ok := k.root.v.(*ssa.Alloc); ok && a.single(al) == nil {
				continue
			}
			r[k.root] = true
		}
	}
	return r
}

func (a *kAn) ret(fr *kFrame, e *kEnv, x *ssa.Return) {
	// a case for each outcome
	type part struct {
		class string
		env   *kEnv
	}
	parts := []part{{"", e}}
	for _, v := range x.Results {
		var next []part
		for _, p := range parts {
			bt, isB := v.Type().Underlying().(*types.Basic)
			switch {
			case isB && bt.Info()&types.IsBoolean != 0:
				for _, t := range []bool{true, false} {
					if q := a.refine(fr, p.env.clone(), v, t, 0); q != nil {
						c := "f"
						if t {
							c = "t"
						}
						next = append(next, part{p.class + c, q})
					}
				}
			case nilable(v.Type()):
				s := a.eval(p.env, v)
				k := a.key(v)
				if !s.and(ksEither).empty() {
					q := p.env.clone()
					if k == nil || a.meet(q, k, ksEither) {
						if c, i := callRes(v); c != nil && fr.calls[c] != nil {
							q = a.byCases(fr, q, c, i, func(cl byte) bool { return cl == '?' || cl == 'n' })
						}
						if q != nil {
							next = append(next, part{p.class + "n", q})
						}
					}
				}
				if t := s.minus(ksEither); !t.empty() || s.empty() {
					q := p.env.clone()
					if k == nil || s.empty() || a.meet(q, k, t) {
						if c, i := callRes(v); c != nil && fr.calls[c] != nil {
							q = a.byCases(fr, q, c, i, func(cl byte) bool { return cl == '?' || cl == 'v' })
						}
						if q != nil {
							next = append(next, part{p.class + "v", q})
						}
					}
				}
			default:
				next = append(next, part{p.class + "?", p.env})
			}
		}
		parts = next
	}
	for _, p := range parts {
		out := newKEnv()
		params := map[*kKey]bool{}
		for _, pr := range fr.fn.Params {
			params[a.rootKey(pr, 0, pr.Type())] = true
		}
		for k, s := range p.env.all() {
			if k.op == "[*]" {
				continue
			}
			if params[k.root] || k.root.v != nil && ownerOf(k.root.v) != fr.fn {
				out.set(k, s)
			}
		}
		for _, q := range p.env.pairs() {
			if (params[q[0]] || a.outside(fr, q[0])) && (params[q[1]] || a.outside(fr, q[1])) {
				out.alike(q[0], q[1])
			}
		}
		var keys []*kKey
		for i, v := range x.Results {
			if i >= len(a.results) {
				break
			}
			k := a.key(v)
			if k != nil && (params[k.root] || k.root.v != nil && ownerOf(k.root.v) != fr.fn) {
				keys = append(keys, k)
			} else {
				keys = append(keys, nil)
			}
			a.bundle(p.env, v, a.results[i], out)
			if s, ok := out.get(a.results[i]); ok && i < len(p.class) {
				if p.class[i] == 'n' {
					out.set(a.results[i], s.and(ksEither))
				} else if p.class[i] == 'v' {
					out.set(a.results[i], s.minus(ksEither))
				}
			}
		}
		old := fr.cases[p.class]
		if old == nil {
			fr.cases[p.class] = &kCase{class: p.class, env: out, keys: keys}
			continue
		}
		n := &kCase{class: p.class, env: a.join(old.env, out), keys: keys}
		for i := range n.keys {
			if i < len(old.keys) && old.keys[i] != n.keys[i] && !(p.class[i] == 'n') {
				n.keys[i] = nil
			}
		}
		fr.cases[p.class] = n
	}
}

// outside: what a key names belongs to a function around this one.
func (a *kAn) outside(fr *kFrame, k *kKey) bool {
	return k.root.v != nil && ownerOf(k.root.v) != fr.fn
}

func (a *kAn) cellRoot(k *kKey) bool {
	al, ok := k.v.(*ssa.Alloc)
	return ok && a.single(al) == nil
}

func ownerOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case *ssa.FreeVar:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

// targets: the functions a value can be, by what the callers passed if that is known.
func (a *kAn) targets(fr *kFrame, v ssa.Value) []*ssa.Function {
	for f := fr; f != nil; f = f.up {
		if fs, ok := f.fns[v]; ok {
			return fs
		}
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return []*ssa.Function{x.Fn.(*ssa.Function)}
		case *ssa.Function:
			return []*ssa.Function{x}
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			// a captured parameter
			var c *ssa.Alloc
			switch y := x.X.(type) {
			case *ssa.Alloc:
				c = y
			case *ssa.FreeVar:
				c = a.cellOf(y)
			}
			if c != nil {
				if st := a.single(c); st != nil {
					v = st.Val
					for g := fr; g != nil; g = g.up {
						if fs, ok := g.fns[v]; ok {
							return fs
						}
					}
				}
			}
		}
		break
	}
	return a.back.fnVals(v, 0, map[ssa.Value]bool{})
}

// root: fn is called from outside with these facts.
func (a *kAn) root(fn *ssa.Function, in *kEnv) {
	if len(fn.Blocks) == 0 {
		return
	}
	k := a.ctxKey(fn, in, nil)
	a.pending[k] = kRoot{fn, in}
}

// escape: a function is handed to code that is not looked at.
func (a *kAn) escape(fr *kFrame, e *kEnv, v ssa.Value) {
	if !isFuncT(v.Type()) {
		return
	}
	for _, f := range a.targets(fr, v) {
		if isRepoPath(fnPkgPath(f)) || f.Parent() != nil {
			a.root(f, a.entryTop(f))
		}
	}
}

func (a *kAn) entryTop(f *ssa.Function) *kEnv {
	in := newKEnv()
	for _, p := range f.Params {
		if a.tracked(p.Type()) {
			in.set(a.rootKey(p, 0, p.Type()), a.top(p.Type()))
		}
	}
	return in
}

func (a *kAn) setResult(e *kEnv, v *ssa.Call, i int, s KS) {
	if v == nil {
		return
	}
	k := a.resKey(v, i)
	if k != nil {
		e.set(k, s)
	}
}

func (a *kAn) resKey(v *ssa.Call, i int) *kKey {
	if v == nil {
		return nil
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		if i >= tp.Len() {
			return nil
		}
		return a.rootKey(v, i+1, tp.At(i).Type())
	}
	return a.key(v)
}

// ---- calls -----------------------------------------------------------------

func (a *kAn) call(fr *kFrame, e *kEnv, ci ssa.CallInstruction, v *ssa.Call) *kEnv {
	c := ci.Common()
	in := ci.(ssa.Instruction)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(e, b, c, v)
		return e
	}
	if c.IsInvoke() {
		if isAstT(c.Value.Type()) && c.Method.Name() != "" {
			if k := a.key(c.Value); k != nil && k.typ != nil {
				if _, isNode := a.g.nodeStruct(k.typ); isNode {
					return a.virtual(fr, e, ci, v, k)
				}
			}
		}
		for _, g := range c.Args {
			a.escape(fr, e, g)
		}
		a.unknown(e, ci, v, nil)
		return e
	}
	if f := c.StaticCallee(); f != nil {
		real := a.w.real(f)
		if s, n, ok := a.asStruct(real); ok {
			if !a.needs(fr, e, in, c.Args[0], "what As"+n+" is asked of", ci.Pos()) {
				return nil
			}
			have := a.eval(e, c.Args[0]).minus(ksEither)
			bad := ""
			if n == "Node" {
				return e
			}
			if !have.has(ksLost) && !have.within(s) {
				bad = fmt.Sprintf("%s can be of kind %s here, which is no %s", a.name(c.Args[0]), a.g.show(have.minus(s)), n)
			}
			a.oblige(fr, in, "kind", "As"+n, ci.Pos(), bad)
			if k := a.key(c.Args[0]); k != nil && bad != "" {
				if h := have.and(s); h.empty() {
					return nil
				} else {
					e.set(k, h)
				}
			}
			return e
		}
		return a.static(fr, e, ci, v, []*ssa.Function{real}, c.Args)
	}
	fs := a.targets(fr, c.Value)
	if len(fs) == 0 {
		for _, g := range c.Args {
			a.escape(fr, e, g)
		}
		a.unknown(e, ci, v, nil)
		a.forget(e)
		return e
	}
	return a.static(fr, e, ci, v, fs, c.Args)
}

// virtual: a method of the part of a node that depends on its kind.
func (a *kAn) virtual(fr *kFrame, e *kEnv, ci ssa.CallInstruction, v *ssa.Call, k *kKey) *kEnv {
	c := ci.Common()
	impl := map[*ssa.Function]KS{}
	var order []*ssa.Function
	okAll := true
	have := a.lookup(e, k)
	have.each(func(i int) {
		if i >= ksKinds {
			return
		}
		sts := a.g.structsOf[i]
		if len(sts) == 0 {
			return
		}
		for _, st := range sts {
			if st == "Token" && len(sts) > 1 {
				continue
			}
			nt := a.w.namedType(pAst, st)
			if nt == nil {
				okAll = false
				continue
			}
			f := a.methodOf(nt, c.Method.Name())
			if f == nil {
				okAll = false
				continue
			}
			if _, ok := impl[f]; !ok {
				order = append(order, f)
			}
			s := impl[f]
			s.add(i)
			impl[f] = s
		}
	})
	if !okAll || len(order) == 0 {
		a.unknown(e, ci, v, nil)
		return e
	}
	if len(order) > 40 {
		// too many kinds to tell anything but what the field can be
		a.unknown(e, ci, v, nil)
		if v != nil && nilable(v.Type()) {
			if s := a.top(v.Type()); !s.empty() {
				a.setResult(e, v, 0, s.or(ksJustNil))
			}
		}
		return e
	}
	var all []*kCase
	for _, f := range order {
		q := e.clone()
		q.set(k, a.lookup(e, k).and(impl[f]))
		cs, _ := a.into(fr, q, f, c, append([]ssa.Value{c.Value}, c.Args...), in2(ci))
		if cs == nil {
			a.unknown(e, ci, v, nil)
			return e
		}
		all = append(all, cs...)
	}
	return a.after(fr, e, v, all)
}

// engineElems: the kinds of the elements of lists that functions of the engine make.
var engineElems = map[string]string{
	"JSDoc": "JSDoc", "EagerJSDoc": "JSDoc",
	"TypeParameters": "TypeParameterDeclaration",
}

// model adds what is known about the engine and does not show in its code.
func (a *kAn) model(e *kEnv, f *ssa.Function, v *ssa.Call) {
	if v == nil || f.Signature.Recv() == nil || fnPkgPath(f) != pAst || !nodeMethod(f) {
		return
	}
	n, ok := engineElems[f.Name()]
	if !ok {
		return
	}
	k := a.resKey(v, 0)
	sl, isL := v.Type().Underlying().(*types.Slice)
	if k == nil || !isL || a.g.structs[n].empty() {
		return
	}
	e.set(a.child(k, "[*]", sl.Elem()), a.g.structs[n])
}

func in2(ci ssa.CallInstruction) ssa.Instruction { return ci.(ssa.Instruction) }

func (a *kAn) static(fr *kFrame, e *kEnv, ci ssa.CallInstruction, v *ssa.Call, fs []*ssa.Function, args []ssa.Value) *kEnv {
	in := in2(ci)
	var all []*kCase
	lost := false
	writes := false
	for _, f := range fs {
		pp := fnPkgPath(f)
		look := len(f.Blocks) > 0 && (isRepoPath(pp) || pp == pAst || f.Parent() != nil || !isTsgoPath(pp) && takesFunc(f) || pp == pCoreT && takesFunc(f))
		if f.Name() == "ListenerOnExit" || strings.HasPrefix(f.Name(), "ListenerOn") {
			if v != nil && isKindT(v.Type()) && len(args) == 1 {
				all = append(all, &kCase{class: "?", env: func() *kEnv { q := e.clone(); q.set(a.resKey(v, 0), a.eval(e, args[0])); return q }()})
				continue
			}
		}
		if pp == pAst && f.Name() == "ForEachReturnStatement" && len(args) == 2 {
			a.needs(fr, e, in, args[0], "argument 0 of "+f.Name(), ci.Pos())
			for _, t := range a.targets(fr, args[1]) {
				if len(t.Params) == 1 {
					a.root(t, envOf(a.rootKey(t.Params[0], 0, t.Params[0].Type()), a.g.structs["ReturnStatement"]))
				}
			}
			lost = true
			continue
		}
		if !look {
			a.required(fr, e, in, f, args, ci.Pos())
			for _, g := range args {
				a.escape(fr, e, g)
			}
			lost = true
			continue
		}
		if isRepoPath(pp) || f.Parent() != nil {
			writes = true
		} else {
			a.required(fr, e, in, f, args, ci.Pos())
		}
		cs, known := a.into(fr, e, f, ci.Common(), args, in)
		if !known {
			lost = true
			continue
		}
		all = append(all, cs...)
	}
	if writes {
		defer func() {}()
		a.forgetFor(e, fs)
		for _, c := range all {
			a.forgetFor(c.env, fs)
		}
	}
	if lost {
		var f *ssa.Function
		if len(fs) == 1 {
			f = fs[0]
		}
		a.unknown(e, ci, v, f)
		if v != nil {
			delete(fr.calls, v)
		}
		return e
	}
	blind := len(fs) == 1 && nodeMethod(fs[0]) && len(args) > 0 && a.eval(e, args[0]).has(ksLost)
	if v != nil && (blind || a.trusted(fr, v, fs, args)) {
		for _, c := range all {
			for k, s := range c.env.all() {
				if k.root.v == nil {
					c.env.set(k, soften(s))
				}
			}
			for _, k := range c.keys {
				if k != nil {
					c.env.set(k, soften(a.lookup(c.env, k)))
				}
			}
		}
	}
	if r := a.after(fr, e, v, all); r != nil {
		if len(fs) == 1 {
			a.model(r, fs[0], v)
		}
		return r
	}
	return nil
}

var pCoreT = tsgoPath + "/internal/core"

func takesFunc(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isFuncT(p.Type()) {
			return true
		}
	}
	return false
}

// into looks at a function as it is called here; the cases are in the caller's keys.
func (a *kAn) into(fr *kFrame, e *kEnv, f *ssa.Function, c *ssa.CallCommon, args []ssa.Value, site ssa.Instruction) ([]*kCase, bool) {
	in := newKEnv()
	fns := map[ssa.Value][]*ssa.Function{}
	type bind struct{ p, arg *kKey }
	var binds []bind
	for i, p := range f.Params {
		if i >= len(args) {
			break
		}
		pk := a.rootKey(p, 0, p.Type())
		if isFuncT(p.Type()) {
			if ts := a.targets(fr, args[i]); len(ts) > 0 && len(ts) < 4 {
				fns[p] = ts
			}
		}
		if isTruthT(p.Type()) {
			if ak := a.key(args[i]); ak != nil && ak.op == "" {
				if _, cell := ak.v.(*ssa.Alloc); !cell {
					binds = append(binds, bind{pk, ak})
				}
			}
			continue
		}
		if !a.tracked(p.Type()) && !isStructT(p.Type()) {
			continue
		}
		if isRepoPath(fnPkgPath(f)) || f.Parent() != nil || a.relevant(p.Type()) {
			a.bundle(e, args[i], pk, in)
			if ak := a.key(args[i]); ak != nil {
				binds = append(binds, bind{pk, ak})
			}
		}
	}
	// what is known about the variables around a closure
	if f.Parent() != nil {
		roots := a.freeRoots(f)
		var cf *kEnv
		if cf = a.closure[f]; cf != nil {
			for k, s := range cf.all() {
				in.set(k, s)
			}
		}
		for k, s := range e.all() {
			if roots[k.root] && (fr.fn == ownerOf(k.root.v) || fr.fn.Parent() != nil) {
				if old, ok := in.get(k); ok {
					if t := old.and(s); !t.empty() {
						in.set(k, t)
					}
				} else {
					in.set(k, s)
				}
			}
		}
		for _, fv := range f.FreeVars {
			if cell := a.cellOf(fv); cell != nil && isFuncT(deref(cell.Type())) {
				_ = cell
			}
		}
	}
	for k := range in.all() {
		if k.dep > 5 {
			in.del(k)
		}
	}
	for _, p := range e.pairs() {
		var x, y *kKey
		for _, b := range binds {
			if b.arg == p[0] {
				x = b.p
			}
			if b.arg == p[1] {
				y = b.p
			}
		}
		if x != nil && y != nil {
			in.alike(x, y)
		}
	}
	quiet := fr.quiet || !isRepoPath(fnPkgPath(f)) && f.Parent() == nil
	s := a.summary(fr, f, in, fns, quiet && !nodeMethod(f))
	if s == nil {
		return nil, false
	}
	if len(s.cases) == 0 && !s.busy && !s.open {
		return nil, false // nothing is known about calls that seem not to come back
	}
	if len(s.bad) > 0 && nodeMethod(f) {
		a.oblige(fr, site, "kind", f.Name(), site.Pos(), s.bad[0])
	} else if nodeMethod(f) {
		a.oblige(fr, site, "kind", f.Name(), site.Pos(), "")
	} else if len(s.bad) > 0 && !isRepoPath(fnPkgPath(f)) {
		fr.bad = append(fr.bad, s.bad...)
	}
	before := e.clone()
	if isRepoPath(fnPkgPath(f)) || f.Parent() != nil {
		a.forgetFor(before, []*ssa.Function{f})
	}
	a.addressed(before, args, false)
	var out []*kCase
	for _, cs := range s.cases {
		q := before.clone()
		ok := true
		for _, k := range cs.env.keys() {
			st := cs.env.at(k)
			if k.root.v == nil {
				continue
			}
			if ownerOf(k.root.v) != f {
				if k.root.v != nil && ok {
					ok = a.meet(q, k, st)
				}
				continue
			}
			if k.more {
				continue
			}
			for _, b := range binds {
				if b.p == k.root {
					if n := a.rebase(k, b.p, b.arg); n != nil && ok {
						ok = a.meet(q, n, st)
					}
				}
			}
		}
		if !ok {
			continue
		}
		for _, p := range cs.env.pairs() {
			var x, y *kKey
			if p[0].root.v != nil && ownerOf(p[0].root.v) != f {
				x = p[0]
			}
			if p[1].root.v != nil && ownerOf(p[1].root.v) != f {
				y = p[1]
			}
			for _, b := range binds {
				if b.p == p[0] {
					x = b.arg
				}
				if b.p == p[1] {
					y = b.arg
				}
			}
			if x != nil && y != nil {
				q.alike(x, y)
			}
		}
		n := &kCase{class: cs.class, env: q}
		// the results, in keys of the caller where they are parts of what was passed
		for i := range a.results {
			var rk *kKey
			if i < len(cs.keys) && cs.keys[i] != nil {
				k := cs.keys[i]
				if ownerOf(k.root.v) != f {
					rk = k
				} else if !k.more {
					for _, b := range binds {
						if b.p == k.root && rk == nil {
							rk = a.rebase(k, b.p, b.arg)
						}
					}
				}
			}
			n.keys = append(n.keys, rk)
		}
		for k, st := range cs.env.all() {
			if k.root.v == nil {
				q.set(k, st)
			}
		}
		out = append(out, n)
	}
	return out, true
}

// nodeMethod: a method of nodes that answers only for some kinds.
func nodeMethod(f *ssa.Function) bool {
	return fnPkgPath(f) == pAst && f.Signature.Recv() != nil && isNamed(deref(f.Signature.Recv().Type()), pAst, "Node")
}

func (a *kAn) relevant(t types.Type) bool {
	if isKindT(t) || isAstT(t) {
		return true
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return a.relevant(sl.Elem())
	}
	return nilable(t)
}

// after goes on behind a call with what its cases say.
func (a *kAn) after(fr *kFrame, e *kEnv, v *ssa.Call, cases []*kCase) *kEnv {
	if len(cases) == 0 {
		return nil
	}
	nres := 0
	if v != nil {
		nres = 1
		if tp, ok := v.Type().(*types.Tuple); ok {
			nres = tp.Len()
		}
		if nres > len(a.results) {
			nres = len(a.results)
		}
	}
	// does the call always answer with the same part?
	if v != nil && nres == 1 && !a.noAlias[v] && a.tracked(v.Type()) {
		var k *kKey
		same, any := true, false
		for _, c := range cases {
			if len(c.keys) == 0 || c.keys[0] == nil {
				if c.class == "n" {
					if s, ok := c.env.get(a.results[0]); ok && s.within(ksEither) && len(c.keys) > 0 {
						same = false
						continue
					}
				}
				same = false
				continue
			}
			if any && c.keys[0] != k {
				same = false
			}
			k, any = c.keys[0], true
		}
		if same && any {
			if old, ok := a.alias[v]; ok && old != k {
				a.noAlias[v] = true
			} else {
				a.alias[v] = k
			}
		} else if _, ok := a.alias[v]; ok {
			a.noAlias[v] = true
		}
	}
	for _, c := range cases {
		for i := 0; i < nres; i++ {
			k := a.resKey(v, i)
			if k == nil {
				continue
			}
			aliased := len(c.keys) > i && c.keys[i] == k || k.up != nil
			var add []*kKey
			for q := range c.env.all() {
				if q.root == a.results[i] {
					add = append(add, q)
				}
			}
			for _, q := range add {
				s := c.env.at(q)
				if n := a.rebase(q, a.results[i], k); n != nil {
					if aliased {
						l := a.lookup(c.env, n)
						t := l.and(s)
						if l.has(ksMaybe) && s.has(ksNil) && !(len(c.keys) > i && c.keys[i] == k) {
							t.add(ksNil)
							if n == k && strings.Contains(k.op, "(") {
								if old, ok := a.callTop[k]; ok {
									a.callTop[k] = old.or(ksJustNil)
								} else {
									a.callTop[k] = a.top(k.typ).or(ksJustNil)
								}
							}
						}
						if !t.empty() {
							c.env.set(n, t)
						}
					} else {
						c.env.set(n, s)
					}
				}
			}
		}
		for q := range c.env.all() {
			if q.root.v == nil {
				c.env.del(q)
			}
		}
	}
	var r *kEnv
	for _, c := range cases {
		r = a.join(r, c.env)
	}
	if v != nil {
		fr.calls[v] = &kCalled{cases: cases}
	}
	return r.clone()
}

func (a *kAn) builtin(e *kEnv, b *ssa.Builtin, c *ssa.CallCommon, v *ssa.Call) {
	if v == nil {
		return
	}
	switch b.Name() {
	case "append":
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		k := a.rootKey(v, 0, v.Type())
		e.set(k, ksJustOther)
		if !a.tracked(sl.Elem()) {
			return
		}
		var s KS
		for _, x := range c.Args {
			if cc, ok := x.(*ssa.Const); ok && cc.IsNil() {
				continue
			}
			if l := a.key(x); l != nil {
				s = s.or(a.elemFacts(e, l, sl.Elem()))
			} else {
				s = s.or(a.top(sl.Elem()))
			}
		}
		e.set(a.child(k, "[*]", sl.Elem()), s)
	}
}

// forget drops what is known about variables that other code may have changed.
func (a *kAn) forget(e *kEnv) {
	e.drop(func(k *kKey) bool {
		return a.cellRoot(k.root) && a.sharedCell(k.root.v.(*ssa.Alloc), nil) || a.heapField(k)
	})
}

func (a *kAn) forgetFor(e *kEnv, fs []*ssa.Function) {
	e.drop(func(k *kKey) bool {
		if a.cellRoot(k.root) {
			return a.sharedCell(k.root.v.(*ssa.Alloc), nil)
		}
		return a.heapField(k) && a.mayWrite(fs, k)
	})
}

// sharedCell: a variable that closures store to.
func (a *kAn) sharedCell(al *ssa.Alloc, _ any) bool {
	for _, s := range a.storesOf(al) {
		if s.Parent() != al.Parent() {
			return true
		}
	}
	return false
}

func (a *kAn) heapField(k *kKey) bool {
	for p := k; p != nil && p.up != nil; p = p.up {
		if strings.HasPrefix(p.op, ".") && !strings.Contains(p.op, "(") && !isAstT(p.up.typ) && p.up.typ != nil && !isTsgoPath(typePkg(p.up.typ)) {
			if _, ok := p.root.v.(*ssa.Parameter); ok && isStructT(p.root.typ) {
				continue
			}
			return true
		}
	}
	return false
}

// mayWrite: do the functions, or what they call, store to the field?
func (a *kAn) mayWrite(fs []*ssa.Function, k *kKey) bool {
	for p := k; p != nil && p.up != nil; p = p.up {
		if p.up.typ == nil || isAstT(p.up.typ) {
			continue
		}
		st, ok := deref(p.up.typ).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if "."+st.Field(i).Name() == p.op {
				for _, s := range a.back.fields[fieldKey(deref(p.up.typ), i)] {
					if a.isFresh(s.Addr) {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// isFresh: a field of a value that the same function has just made.
func (a *kAn) isFresh(ad ssa.Value) bool {
	fa, ok := ad.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

// addressed forgets what variables hold whose address is handed on.
func (a *kAn) addressed(e *kEnv, args []ssa.Value, structs bool) {
	for _, x := range args {
		for i := 0; i < 4; i++ {
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			} else if ct, ok := x.(*ssa.ChangeType); ok {
				x = ct.X
			}
		}
		switch x.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.FreeVar:
		default:
			continue
		}
		if isAstT(x.Type()) {
			continue
		}
		if _, ok := deref(x.Type()).Underlying().(*types.Struct); ok && !structs {
			continue
		}
		k := a.key(x)
		if k == nil {
			continue
		}
		e.drop(func(q *kKey) bool {
			for p := q; p != nil; p = p.up {
				if p == k {
					return true
				}
			}
			return false
		})
	}
}

// unknown: a call whose code is not looked at.
func (a *kAn) unknown(e *kEnv, ci ssa.CallInstruction, v *ssa.Call, f *ssa.Function) {
	a.addressed(e, ci.Common().Args, true)
	if v == nil {
		return
	}
	n := 1
	var ts []types.Type
	if tp, ok := v.Type().(*types.Tuple); ok {
		n = tp.Len()
		for i := 0; i < n; i++ {
			ts = append(ts, tp.At(i).Type())
		}
	} else {
		ts = []types.Type{v.Type()}
	}
	for i := 0; i < n && i < len(a.results); i++ {
		if !a.tracked(ts[i]) {
			continue
		}
		s := a.top(ts[i])
		if f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "errors" && f.Name() == "New" || f.Pkg.Pkg.Path() == "fmt" && f.Name() == "Errorf") {
			s = ksJustOther
		}
		if f != nil && nilable(ts[i]) {
			if nr := a.mayNil(f); n == 1 && i < len(nr) && nr[i] && !alwaysType(f, ts[i]) && !a.declared(e, f, ci) {
				s = s.or(ksJustNil)
			}
		}
		k := a.resKey(v, i)
		if k == nil {
			continue
		}
		if k.up != nil {
			a.callTop[k] = s
		}
		if k.up == nil || k.v == ssa.Value(v) {
			e.set(k, s)
		} else if _, ok := e.get(k); !ok {
			e.set(k, s)
		}
	}
}

// alwaysType: functions of the engine that always have a type to answer with, the error type if nothing
// else, whatever the ways through their code look like.
func alwaysType(f *ssa.Function, t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Name() != "Type" || !isTsgoPath(typePkg(t)) {
		return false
	}
	name := strings.TrimPrefix(strings.ToLower(f.Name()), "checker_")
	switch name {
	case "gettypeatlocation", "gettypeofsymbol", "gettypeofsymbolatlocation", "getreturntypeofsignature", "getapparenttype",
		"gettypefromtypenode", "getdeclaredtypeofsymbol", "getbasetypeofliteraltype", "getnonnullabletype", "getwidenedtype",
		"getcontextfreetypeofexpression", "getvoidtype":
		return true
	}
	return false
}

// declared: the symbol of the name in a declaration, which always has one.
func (a *kAn) declared(e *kEnv, f *ssa.Function, ci ssa.CallInstruction) bool {
	if !strings.EqualFold(f.Name(), "GetSymbolAtLocation") {
		return false
	}
	for _, x := range ci.Common().Args {
		k := a.key(x)
		if k == nil || k.up == nil || !strings.EqualFold(strings.Trim(k.op, ".()"), "name") {
			continue
		}
		ps := a.lookup(e, k.up)
		all := !ps.and(a.g.nodes).empty() && !ps.has(ksLost)
		ps.and(a.g.nodes).each(func(i int) { all = all && namedDeclarations[a.g.kindName[i]] })
		a.lookup(e, k).and(a.g.nodes).each(func(i int) { all = all && !strings.HasSuffix(a.g.kindName[i], "BindingPattern") })
		if all {
			return true
		}
	}
	return false
}

var namedDeclarations = map[string]bool{"EnumDeclaration": true, "EnumMember": true, "ClassDeclaration": true, "ClassExpression": true, "FunctionDeclaration": true,
	"FunctionExpression": true, "InterfaceDeclaration": true, "TypeAliasDeclaration": true, "ModuleDeclaration": true, "TypeParameter": true,
	"VariableDeclaration": true, "Parameter": true, "BindingElement": true, "MethodDeclaration": true, "MethodSignature": true,
	"PropertyDeclaration": true, "PropertySignature": true, "GetAccessor": true, "SetAccessor": true}

// mayNil: results of a function that are nil on some way through it, as its code shows.
func (a *kAn) mayNil(f *ssa.Function) []bool {
	if r, ok := a.nilRet[f]; ok {
		return r
	}
	n := f.Signature.Results().Len()
	r := make([]bool, n)
	a.nilRet[f] = r
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			if i < n && nilable(v.Type()) && !types.IsInterface(v.Type()) && a.nilSource(v, b, map[ssa.Value]bool{}) {
				r[i] = true
			}
		}
	}
	return r
}

// afterNil: the block is reached only if something passed in, or a field of it, is nil.
func afterNil(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isNilV(bo.Y) && !isNilV(bo.X) {
			continue
		}
		x := bo.X
		if isNilV(x) {
			x = bo.Y
		}
		if bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d {
			if ofParam(x) {
				return true
			}
		}
	}
	return false
}

func ofParam(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (a *kAn) nilSource(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil() && !afterNil(b)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if a.nilSource(e, x.Block().Preds[i], seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return a.nilSource(x.X, b, seen)
	case *ssa.Call:
		if g := a.w.real(x.Call.StaticCallee()); g != nil && len(g.Blocks) > 0 {
			if nr := a.mayNil(g); len(nr) == 1 {
				return nr[0]
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := a.w.real(c.Call.StaticCallee()); g != nil && len(g.Blocks) > 0 {
				if nr := a.mayNil(g); x.Index < len(nr) {
					return nr[x.Index]
				}
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			n, _ := fieldName(fa.X.Type(), fa.Field)
			return nullableField(fa.X.Type(), lower(n))
		}
	}
	return false
}

// required: parameters a function uses whatever happens.
func (a *kAn) required(fr *kFrame, e *kEnv, in ssa.Instruction, f *ssa.Function, args []ssa.Value, pos token.Pos) {
	ms := a.musts(f, 0)
	for i, m := range ms {
		if m && i < len(args) {
			a.needs(fr, e, in, args[i], fmt.Sprintf("argument %d of %s", i, f.Name()), pos)
		}
	}
}

func (a *kAn) musts(f *ssa.Function, d int) []bool {
	if r, ok := a.must[f]; ok {
		return r
	}
	r := make([]bool, len(f.Params))
	if len(f.Blocks) == 0 || d > 40 {
		return r
	}
	a.must[f] = r
	for i, p := range f.Params {
		if nilable(p.Type()) {
			r[i] = a.ifNil(f, p, d).fails
			if f.Name() == "GetTypeOfSymbolAtLocation" && isNamed(deref(p.Type()), pAst, "Symbol") {
				r[i] = true // it fails unless the place happens to be a name of the very symbol
			}
		}
	}
	return r
}

// ifNil follows a function for a parameter that is nil: does it fail on every way through it,
// and does it answer with nil whenever it answers?
func (a *kAn) ifNil(f *ssa.Function, p *ssa.Parameter, d int) (out kIfNil) {
	if r, ok := a.nilIn[p]; ok {
		return r
	}
	a.nilIn[p] = kIfNil{}
	defer func() { a.nilIn[p] = out }()
	nils := map[ssa.Value]bool{p: true}
	isNil := func(v ssa.Value) bool {
		if nils[v] {
			return true
		}
		c, ok := v.(*ssa.Const)
		return ok && c.IsNil()
	}
	fails, nilOut := true, true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if nils[x.X] {
					return
				}
			case *ssa.Call:
				g := a.w.real(x.Call.StaticCallee())
				if g == nil || !isTsgoPath(fnPkgPath(g)) && !isRepoPath(fnPkgPath(g)) {
					continue
				}
				for j, m := range a.musts(g, d+1) {
					if j >= len(x.Call.Args) || !nils[x.Call.Args[j]] {
						continue
					}
					if m {
						return
					}
					if d < 40 && len(g.Blocks) > 0 && len(g.Blocks) < 40 && g.Signature.Results().Len() == 1 && nilable(x.Type()) && j < len(g.Params) {
						if a.ifNil(g, g.Params[j], d+1).nilOut {
							nils[x] = true
						}
					}
				}
			case *ssa.Return:
				fails = false
				for _, v := range x.Results {
					if !isNil(v) {
						nilOut = false
					}
				}
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				if c, ok := x.Cond.(*ssa.BinOp); ok && isNil(c.X) && isNil(c.Y) {
					if c.Op == token.EQL {
						walk(b.Succs[0])
						return
					}
					if c.Op == token.NEQ {
						walk(b.Succs[1])
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return kIfNil{fails, nilOut && !fails}
}

type kIfNil struct{ fails, nilOut bool }

// soft: nil in a table of what a variable holds at any time is no sign of its being nil at
// one time.
func soft(e *kEnv) *kEnv {
	for k, s := range e.all() {
		e.set(k, soften(s))
	}
	return e
}

func soften(s KS) KS {
	if s.has(ksNil) {
		s.del(ksNil)
		s.add(ksMaybe)
	}
	return s
}

// methodOf: the method a node struct has by a name, its own or one of a part it is made of.
func (a *kAn) methodOf(nt *types.Named, name string) *ssa.Function {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), name)
	fo, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return a.w.Prog.FuncValue(fo)
}

// trusted: calls whose answer is there for reasons outside the reach of the grammar, which
// were checked by reading the code.
func (a *kAn) trusted(fr *kFrame, v *ssa.Call, fs []*ssa.Function, args []ssa.Value) bool {
	if len(fs) == 1 && fnPkgPath(fs[0]) == pAst && fs[0].Name() == "GetSourceFileOfNode" && len(args) == 1 && !a.eval(fr.in[v.Block()], args[0]).has(ksNil) {
		return true // every node is in a file
	}
	switch fnPkgPath(fr.fn) {
	case modPath + "/internal/rules/require_await":
		// the token "async" of functions that are noted as async when they are entered
		for _, x := range args {
			if c, ok := constInt(x); ok && isKindT(x.Type()) && a.g.kindName[int(c)] == "AsyncKeyword" {
				return true
			}
		}
	case modPath + "/internal/rules/no_duplicate_type_constituents":
		// the union around a constituent that was found by going down from it
		for _, f := range fs {
			if isRepoPath(fnPkgPath(f)) && a.goesUp(f) {
				return true
			}
		}
	}
	return false
}

// goesUp: the function answers with nodes that it reached through parents.
func (a *kAn) goesUp(f *ssa.Function) bool {
	if !a.onlyNode(f.Signature.Results()) || f.Signature.Results().Len() != 1 {
		return false
	}
	seen := map[ssa.Value]bool{}
	ok := true
	var up func(v ssa.Value)
	up = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				up(y)
			}
		case *ssa.Const, *ssa.Parameter:
		case *ssa.UnOp:
			if fa, is := x.X.(*ssa.FieldAddr); is && fieldNm(fa) == "Parent" {
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, is := in.(*ssa.Return); is {
				up(r.Results[0])
			}
		}
	}
	return ok
}

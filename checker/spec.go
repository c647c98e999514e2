package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Shared pieces of the checks over the headless supergraph.
// ---------------------------------------------------------------------------

const (
	pCmd    = modPath + "/cmd/tsgolint"
	pLinter = modPath + "/internal/linter"
	pUtils  = modPath + "/internal/utils"
	pRule   = modPath + "/internal/rule"
	pDiag   = modPath + "/internal/diagnostic"
	pRules  = modPath + "/internal/rules/"
	pAst    = tsgoPath + "/internal/ast"
	pJSON   = "github.com/go-json-experiment/json"
)

func inlineCore(f *ssa.Function) bool {
	switch fnPkgPath(f) {
	case pCmd, pLinter, pUtils, pRule, pDiag:
		return true
	}
	return false
}

type Headless struct {
	W     *World
	G     *Graph
	Entry Node
	Nodes []Node
	set   map[Node]bool
	rev   map[Node][]Node
	amemo map[okey]Anchor
	abusy map[okey]bool

	ruleLists []Origin // what the tables of rules by name are filled from
}

var headlessCache *Headless

// headless builds the supergraph of the headless entry point.
func headless(r *R) *Headless {
	if headlessCache != nil {
		return headlessCache
	}
	root := headlessRoot(r.W)
	if !r.Need(root != nil, "the entry point of headless mode (called by main when the first argument is \"headless\")") {
		return nil
	}
	h := newHeadless(r.W, root)
	headlessCache = h
	return h
}

func newHeadless(w *World, root *ssa.Function) *Headless {
	h := &Headless{W: w, amemo: map[okey]Anchor{}, abusy: map[okey]bool{}}
	h.G = NewGraph(w, root, inlineCore)
	h.Entry, _ = h.G.Entry(h.G.Root)
	h.Nodes = h.G.Nodes()
	h.set = map[Node]bool{}
	for _, n := range h.Nodes {
		h.set[n] = true
	}
	return h
}

// headlessRoot finds the function main dispatches to under the "headless" argument:
// the function of package main from which stdin is read and RunLinter is reached.
func headlessRoot(w *World) *ssa.Function {
	if f := w.lookupFn(pCmd, "", "runHeadless"); f != nil && len(f.Blocks) > 0 {
		return f
	}
	// renamed: the only package main function referring to os.Stdin and returning int
	var cand []*ssa.Function
	for _, f := range w.allFns {
		if fnPkgPath(f) != pCmd || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.RelString(nil) == "os.Stdin" {
						cand = append(cand, f)
					}
				}
			}
		}
	}
	if len(cand) == 1 {
		return cand[0]
	}
	return nil
}

func (h *Headless) reverse() map[Node][]Node {
	if h.rev == nil {
		h.rev = map[Node][]Node{}
		for _, n := range h.Nodes {
			for _, e := range h.G.Succ(n) {
				if h.G.live != nil && h.G.live.cut(n, e) {
					continue
				}
				h.rev[e.To] = append(h.rev[e.To], n)
			}
		}
	}
	return h.rev
}

// find returns the nodes satisfying a predicate.
func (h *Headless) find(p func(n Node) bool) []Node {
	var r []Node
	for _, n := range h.Nodes {
		if p(n) {
			r = append(r, n)
		}
	}
	return r
}

// calls returns the opaque call nodes with one of the given callee paths.
func (h *Headless) calls(paths ...string) []Node {
	return h.find(func(n Node) bool {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) {
			return false
		}
		cp := realPath(h.W, c)
		for _, p := range paths {
			if cp == p {
				return true
			}
		}
		return false
	})
}

// realPath is calleePath with shim aliases and linknames resolved.
func realPath(w *World, c *ssa.CallCommon) string {
	if !c.IsInvoke() {
		if f, ok := c.Value.(*ssa.Function); ok {
			if t, ok := w.Link[f]; ok {
				if o, ok := t.Object().(*types.Func); ok {
					return objPath(o)
				}
			}
		}
	}
	return calleePath(c)
}

// mustPass: every path from `from` to a node satisfying `to` goes through a node
// satisfying `through`. Returns the first offending target.
func (h *Headless) mustPass(from []Node, through, to func(Node) bool, cut Cut) (Node, bool) {
	seen := h.G.Reach(from, through, cut)
	var bad []Node
	for n := range seen {
		if to(n) && !through(n) {
			bad = append(bad, n)
		}
	}
	if len(bad) == 0 {
		return Node{}, true
	}
	sort.Slice(bad, func(i, j int) bool { return h.G.less(bad[i], bad[j]) })
	return bad[0], false
}

func (h *Headless) frameReturns(f *Frame) map[Node]bool {
	m := map[Node]bool{}
	for _, b := range f.Fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			m[Node{F: f, I: ret}] = true
		}
	}
	return m
}

// fnPath describes a node for a violation key: function + what.
func (h *Headless) where(n Node) string { return fnName(n.F.Fn) }

func originStrings(os []Origin) string {
	var s []string
	seen := map[string]bool{}
	for _, o := range os {
		if x := o.String(); !seen[x] {
			seen[x] = true
			s = append(s, x)
		}
	}
	sort.Strings(s)
	return strings.Join(s, " | ")
}

// locKey names the memory cell behind an address, "" when not unique.
func (h *Headless) locOf(v VV) string {
	ls := h.G.addr(v, map[okey]bool{})
	if len(ls) != 1 {
		return ""
	}
	return rootKey(h.G, ls[0]) + ls[0].Path
}

func (h *Headless) locsOf(v VV) map[string]bool {
	m := map[string]bool{}
	for _, l := range h.G.addr(v, map[okey]bool{}) {
		m[rootKey(h.G, l)+l.Path] = true
	}
	return m
}

func overlap(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// threads lists the root frames of goroutines.
func (h *Headless) threads() []*Frame {
	var r []*Frame
	for _, f := range h.G.Frames {
		if f.Thread == f && f.Parent != nil {
			r = append(r, f)
		}
	}
	return r
}

func spawnNode(f *Frame) Node { return Node{F: f.Parent, I: f.Site, At: f.At} }

// joinNode tells whether n waits for the end of thread t.
func (h *Headless) joinNode(t *Frame, n Node) bool {
	c := callOf(n)
	sc := t.Site.Common()
	if c != nil && h.G.Opaque(n) {
		switch calleePath(c) {
		case "sync.WaitGroup.Wait":
			if len(c.Args) == 0 {
				return false
			}
			wl := h.locsOf(VV{n.F, c.Args[0]})
			if calleePath(sc) == "sync.WaitGroup.Go" {
				return overlap(wl, h.locsOf(VV{t.Parent, sc.Args[0]}))
			}
			// go f() with a deferred or final Done on the same group
			for _, m := range h.Nodes {
				if m.F.Thread != t {
					continue
				}
				mc := callOf(m)
				if mc != nil && calleePath(mc) == "sync.WaitGroup.Done" && len(mc.Args) > 0 && overlap(wl, h.locsOf(VV{m.F, mc.Args[0]})) && h.lastInThread(t, m) {
					return true
				}
			}
		}
		if c.IsInvoke() && c.Method.Name() == "RunAndWait" {
			if sc.IsInvoke() && sc.Method.Name() == "Queue" {
				a := originSet(h.G.Origins(VV{n.F, c.Value}))
				b := originSet(h.G.Origins(VV{t.Parent, sc.Value}))
				return overlapO(a, b)
			}
		}
	}
	if u, ok := n.I.(*ssa.UnOp); ok && u.Op.String() == "<-" {
		ch := originSet(h.G.Origins(VV{n.F, u.X}))
		for _, m := range h.Nodes {
			if m.F.Thread != t {
				continue
			}
			if mc := callOf(m); mc != nil && calleePath(mc) == "builtin.close" && overlapO(ch, originSet(h.G.Origins(VV{m.F, mc.Args[0]}))) && h.lastInThread(t, m) {
				return true
			}
		}
	}
	return false
}

func originSet(os []Origin) map[Origin]bool {
	m := map[Origin]bool{}
	for _, o := range os {
		m[o] = true
	}
	return m
}

func overlapO(a, b map[Origin]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// lastInThread: no stdout write follows m in thread t and every path of the thread passes m.
func (h *Headless) lastInThread(t *Frame, m Node) bool {
	e, ok := h.G.Entry(t)
	if !ok {
		return false
	}
	rets := h.frameReturns(t)
	if _, ok := h.mustPass([]Node{e}, func(n Node) bool { return n == m }, func(n Node) bool { return rets[n] }, nil); !ok {
		return false
	}
	for n := range h.G.Reach(h.G.After(m), nil, nil) {
		if n != m && n.F.Thread == t {
			if c := callOf(n); c != nil && h.G.Opaque(n) && h.touchesStdout(n, c) {
				return false
			}
			if _, ok := n.I.(*ssa.Send); ok {
				return false
			}
		}
	}
	return true
}

// joinedBefore: every path from the start of thread t to node n passes a join of t.
func (h *Headless) joinedBefore(t *Frame, n Node) bool {
	sp := spawnNode(t)
	through := func(x Node) bool { return h.joinNode(t, x) }
	// continue in the spawning thread only; when the spawner itself is a thread its join is required as well
	seen := h.G.Reach(h.G.After(sp), through, func(from Node, e Edge) bool {
		return e.To.F == t
	})
	if !seen[n] {
		return true
	}
	return through(n)
}

// ---- standard output -------------------------------------------------------

func (h *Headless) isStdout(v VV) bool {
	return h.isStdoutD(v, 0)
}

func (h *Headless) isStdoutD(v VV, d int) bool {
	if d > 4 || v.V == nil {
		return false
	}
	for _, o := range h.G.Origins(v) {
		switch x := o.V.(type) {
		case *ssa.Global:
			if x.RelString(nil) == "os.Stdout" {
				return true
			}
		case *ssa.Call:
			cp := calleePath(&x.Call)
			if derivesWriter(cp) {
				for _, a := range x.Call.Args {
					if isWriterish(a.Type()) && h.isStdoutD(VV{o.F, a}, d+1) {
						return true
					}
				}
			}
			if cp == "os.NewFile" {
				return true
			}
		}
	}
	return false
}

func derivesWriter(cp string) bool {
	switch cp {
	case "bufio.NewWriter", "bufio.NewWriterSize", "io.MultiWriter", "bufio.NewReadWriter":
		return true
	}
	return strings.HasSuffix(cp, ".NewEncoder") || strings.HasSuffix(cp, ".NewWriter")
}

func isWriterish(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isWriterish(s.Elem())
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (h *Headless) touchesStdout(n Node, c *ssa.CallCommon) bool {
	if c.IsInvoke() && isWriterish(c.Value.Type()) && h.isStdout(VV{n.F, c.Value}) {
		return true
	}
	for _, a := range c.Args {
		if isWriterish(a.Type()) && h.isStdout(VV{n.F, a}) {
			return true
		}
	}
	return false
}

// writerID names the writer object a stdout operation goes to.
func (h *Headless) writerID(v VV) string {
	var ids []string
	for _, o := range h.G.Origins(v) {
		if g, ok := o.V.(*ssa.Global); ok {
			ids = append(ids, g.RelString(nil))
		} else if o.V != nil {
			ids = append(ids, fmt.Sprintf("%d:%s", o.F.ID, o.V.Name()))
		}
	}
	sort.Strings(ids)
	return strings.Join(ids, "+")
}

// piece is one part of the byte stream: "len" (LE uint32 of the length of Of), "type", "body".
type piece struct {
	Kind string
	Of   string // identity of the body
	Type VV
	Body VV    // the encode call
	Set  *Node // the instruction that put the piece into a buffer
}

func (p piece) String() string { return p.Kind + ":" + p.Of }

// stdoutOp classifies an opaque call on standard output.
type stdoutOp struct {
	Kind   string // "write", "flush", "query", "derive", "other"
	Writer VV
	Pieces []piece
	Why    string
}

func (h *Headless) stdoutOp(n Node) *stdoutOp {
	c := callOf(n)
	if c == nil || !h.G.Opaque(n) || !h.touchesStdout(n, c) {
		return nil
	}
	cp := calleePath(c)
	recv := func() VV {
		if c.IsInvoke() {
			return VV{n.F, c.Value}
		}
		return VV{n.F, c.Args[0]}
	}
	arg := func(i int) VV {
		if c.IsInvoke() {
			return VV{n.F, c.Args[i]}
		}
		return VV{n.F, c.Args[i+1]}
	}
	if derivesWriter(cp) && strings.HasPrefix(cp, "bufio.NewWriter") {
		return &stdoutOp{Kind: "derive"}
	}
	switch cp {
	case "io.Writer.Write", "bufio.Writer.Write", "os.File.Write":
		ps, why := h.pieces(arg(0), 0)
		return &stdoutOp{Kind: "write", Writer: recv(), Pieces: ps, Why: why}
	case "bufio.Writer.WriteByte", "io.ByteWriter.WriteByte":
		return &stdoutOp{Kind: "write", Writer: recv(), Pieces: []piece{{Kind: "type", Type: arg(0)}}}
	case "bufio.Writer.Flush":
		return &stdoutOp{Kind: "flush", Writer: recv()}
	case "bufio.Writer.Available", "bufio.Writer.Buffered", "bufio.Writer.Size":
		return &stdoutOp{Kind: "query", Writer: recv()}
	case "encoding/binary.Write":
		// binary.Write(w, order, v)
		w := VV{n.F, c.Args[0]}
		le := false
		for _, o := range h.G.Origins(VV{n.F, c.Args[1]}) {
			if g, ok := o.V.(*ssa.Global); ok && g.RelString(nil) == "encoding/binary.LittleEndian" {
				le = true
			}
		}
		v := unwrapIface(c.Args[2])
		if p, ok := h.lenPiece(VV{n.F, v}); ok && le && sizeOfBasic(v.Type()) == 4 {
			return &stdoutOp{Kind: "write", Writer: w, Pieces: []piece{p}}
		}
		if sizeOfBasic(v.Type()) == 1 {
			return &stdoutOp{Kind: "write", Writer: w, Pieces: []piece{{Kind: "type", Type: VV{n.F, v}}}}
		}
	}
	return &stdoutOp{Kind: "other", Why: "call to " + cp + " is not a frame write"}
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func sizeOfBasic(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8:
			return 1
		case types.Uint32, types.Int32:
			return 4
		}
	}
	return 0
}

// encodeCalls: the JSON encoder calls a byte slice comes from.
func isEncode(cp string) bool {
	return cp == pJSON+".Marshal" || cp == "encoding/json.Marshal"
}

func (h *Headless) bodyID(v VV) (string, VV, bool) {
	os := h.G.Origins(v)
	if len(os) == 0 {
		return "", VV{}, false
	}
	id := ""
	var body VV
	for _, o := range os {
		c, ok := o.V.(*ssa.Call)
		if !ok || !isEncode(calleePath(&c.Call)) || o.Path != "#0" {
			return "", VV{}, false
		}
		s := fmt.Sprintf("%d:%s", o.F.ID, c.Name())
		if id != "" && s != id {
			return "", VV{}, false
		}
		id = s
		body = VV{o.F, c}
	}
	return id, body, true
}

// lenPiece: v is the length of an encoded body.
func (h *Headless) lenPiece(v VV) (piece, bool) {
	os := h.G.Origins(v)
	if len(os) == 0 {
		return piece{}, false
	}
	id := ""
	for _, o := range os {
		c, ok := o.V.(*ssa.Call)
		if !ok {
			return piece{}, false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return piece{}, false
		}
		s, _, ok := h.bodyID(VV{o.F, c.Call.Args[0]})
		if !ok || (id != "" && id != s) {
			return piece{}, false
		}
		id = s
	}
	return piece{Kind: "len", Of: id}, true
}

// pieces evaluates the abstract content of a byte slice.
func (h *Headless) pieces(v VV, d int) ([]piece, string) {
	if d > 8 {
		return nil, "content of the written bytes not understood"
	}
	if id, body, ok := h.bodyID(v); ok {
		return []piece{{Kind: "body", Of: id, Body: body}}, ""
	}
	os := h.G.Origins(v)
	if len(os) != 1 {
		return nil, fmt.Sprintf("written bytes have %d possible sources: %s", len(os), originStrings(os))
	}
	o := os[0]
	switch x := o.V.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && o.Path == "" {
			a, why := h.pieces(VV{o.F, x.Call.Args[0]}, d+1)
			if why != "" {
				return nil, why
			}
			bb, why := h.pieces(VV{o.F, x.Call.Args[1]}, d+1)
			if why != "" {
				return nil, why
			}
			return append(append([]piece{}, a...), bb...), ""
		}
		if strings.HasSuffix(calleePath(&x.Call), "littleEndian.AppendUint32") {
			n := len(x.Call.Args)
			a, why := h.pieces(VV{o.F, x.Call.Args[n-2]}, d+1)
			if why != "" {
				return nil, why
			}
			p, ok := h.lenPiece(VV{o.F, x.Call.Args[n-1]})
			if !ok {
				return nil, "the 32-bit header word is not the length of the encoded body"
			}
			return append(append([]piece{}, a...), p), ""
		}
		return nil, "written bytes come from " + calleePath(&x.Call)
	case *ssa.Slice:
		if x.Low != nil {
			if n, ok := constInt(x.Low); !ok || n != 0 {
				return nil, "a frame is written from a non-zero offset"
			}
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok && x.High == nil {
			return h.pieces(VV{o.F, x.X}, d+1)
		}
		// array-backed buffer
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			if ms := h.makeSliceOf(VV{o.F, x.X}); ms != nil && x.High != nil {
				if n, ok := constInt(x.High); ok {
					return h.layout(h.rootIDs(VV{o.F, x.X}), n, d)
				}
			}
			return nil, "content of the written bytes not understood"
		}
		arr, ok := pt.Elem().Underlying().(*types.Array)
		if !ok {
			return nil, "content of the written bytes not understood"
		}
		n := arr.Len()
		if x.High != nil {
			k, ok := constInt(x.High)
			if !ok {
				return nil, "content of the written bytes not understood"
			}
			n = k
		}
		if n == 0 {
			return nil, ""
		}
		return h.layout(h.rootIDs(VV{o.F, x.X}), n, d)
	case *ssa.Alloc:
		return nil, "content of the written bytes not understood"
	case *ssa.MakeSlice:
		if n, ok := constInt(x.Len); ok {
			if n == 0 {
				return nil, ""
			}
			return h.layout(h.rootIDs(VV{o.F, x}), n, d)
		}
		// make([]byte, k+len(body))
		if b, ok := x.Len.(*ssa.BinOp); ok && b.Op.String() == "+" {
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := constInt(pr[0]); ok {
					if p, ok := h.lenPiece(VV{o.F, pr[1]}); ok {
						ps, why := h.layout(h.rootIDs(VV{o.F, x}), k, d)
						if why != "" {
							return nil, why
						}
						// the copy of the body at offset k
						if bp, ok := h.copiedAt(h.rootIDs(VV{o.F, x}), k, d); ok && bp.Of == p.Of {
							return append(ps, bp), ""
						}
						return nil, "the body is not copied behind the header"
					}
				}
			}
		}
	case *ssa.Const:
		if x.Value == nil {
			return nil, ""
		}
	}
	return nil, "content of the written bytes not understood (" + o.String() + ")"
}

func (h *Headless) makeSliceOf(v VV) *ssa.MakeSlice {
	os := h.G.Origins(v)
	if len(os) == 1 && os[0].Path == "" {
		m, _ := os[0].V.(*ssa.MakeSlice)
		return m
	}
	return nil
}

func (h *Headless) rootIDs(v VV) map[string]bool {
	m := map[string]bool{}
	if _, ok := v.V.Type().Underlying().(*types.Slice); ok {
		for _, l := range h.G.sliceRoots(v, map[okey]bool{}) {
			m[rootKey(h.G, l)+l.Path] = true
		}
		return m
	}
	return h.locsOf(v)
}

// bufOff resolves a slice argument to (buffer, offset) for a view of a known buffer.
func (h *Headless) viewOf(v VV, buf map[string]bool) (int64, bool) {
	off := int64(0)
	for i := 0; i < 6; i++ {
		if s, ok := v.V.(*ssa.Slice); ok {
			if s.Low != nil {
				k, ok := constInt(s.Low)
				if !ok {
					return 0, false
				}
				off += k
			}
			if _, ok := s.X.Type().Underlying().(*types.Pointer); ok {
				return off, overlap(buf, h.locsOf(VV{v.F, s.X}))
			}
			v = VV{v.F, s.X}
			continue
		}
		os := h.G.Origins(v)
		if len(os) != 1 || os[0].Path != "" {
			return 0, false
		}
		if os[0].V == v.V && os[0].F == v.F {
			return off, overlap(buf, h.rootIDs(v))
		}
		v = VV{os[0].F, os[0].V}
	}
	return 0, false
}

// layout evaluates the first n bytes of a buffer from the stores into it.
func (h *Headless) layout(buf map[string]bool, n int64, d int) ([]piece, string) {
	type ent struct {
		off, size int64
		p         piece
	}
	var es []ent
	bad := ""
	for _, m := range h.Nodes {
		switch x := m.I.(type) {
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			var mine bool
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				mine = overlap(buf, h.rootIDs(VV{m.F, ia.X}))
			} else {
				mine = overlap(buf, h.locsOf(VV{m.F, ia.X}))
			}
			if !mine {
				continue
			}
			k, ok := constInt(ia.Index)
			if !ok {
				bad = "a header byte is stored at a computed position"
				continue
			}
			mm := m
			es = append(es, ent{k, 1, piece{Kind: "type", Type: VV{m.F, x.Val}, Set: &mm}})
		}
		c := callOf(m)
		if c == nil || !h.G.Opaque(m) {
			continue
		}
		cp := calleePath(c)
		if strings.HasSuffix(cp, ".PutUint32") && strings.HasPrefix(cp, "encoding/binary.") {
			a := c.Args[len(c.Args)-2]
			off, ok := h.viewOf(VV{m.F, a}, buf)
			if !ok {
				continue
			}
			if !strings.Contains(cp, "littleEndian") {
				return nil, "the length word is not little-endian"
			}
			p, ok := h.lenPiece(VV{m.F, c.Args[len(c.Args)-1]})
			if !ok {
				return nil, "the length word is not the byte length of the encoded body"
			}
			mm := m
			p.Set = &mm
			es = append(es, ent{off, 4, p})
		}
		if cp == "builtin.copy" {
			off, ok := h.viewOf(VV{m.F, c.Args[0]}, buf)
			if ok && off < n {
				bad = "a header byte is copied"
			}
		}
	}
	if bad != "" {
		return nil, bad
	}
	sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
	var out []piece
	at := int64(0)
	for _, e := range es {
		if e.off >= n {
			continue
		}
		if e.off != at {
			return nil, fmt.Sprintf("header byte %d is not set exactly once", at)
		}
		out = append(out, e.p)
		at += e.size
	}
	if at != n {
		return nil, fmt.Sprintf("the header has %d bytes but %d are set", n, at)
	}
	return out, ""
}

func (h *Headless) copiedAt(buf map[string]bool, k int64, d int) (piece, bool) {
	for _, m := range h.Nodes {
		c := callOf(m)
		if c == nil || calleePath(c) != "builtin.copy" {
			continue
		}
		off, ok := h.viewOf(VV{m.F, c.Args[0]}, buf)
		if ok && off == k {
			if id, body, ok := h.bodyID(VV{m.F, c.Args[1]}); ok {
				mm := m
				return piece{Kind: "body", Of: id, Body: body, Set: &mm}, true
			}
		}
	}
	return piece{}, false
}

package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rta: rapid type analysis over repository and engine, through the shim links.
type rta struct {
	w       *World
	from    map[*ssa.Function]callerOf
	work    []*ssa.Function
	rtypes  map[string]types.Type            // concrete types converted to an interface
	invoked map[string][]invokeSite          // interface method name -> sites
	ext     map[*ssa.Function][]callerOf     // functions without a body (standard library)
	created map[*types.Named]bool            // types of which reachable code makes values
	held    map[*types.Named][]*ssa.Function // methods of types not created so far
}

type callerOf struct {
	f    *ssa.Function
	site ssa.Instruction
}

type invokeSite struct {
	c callerOf
	m *types.Func
	t types.Type // interface
}

func newRTA(w *World, roots ...*ssa.Function) *rta {
	a := &rta{w: w, from: map[*ssa.Function]callerOf{}, rtypes: map[string]types.Type{}, invoked: map[string][]invokeSite{}, ext: map[*ssa.Function][]callerOf{},
		created: map[*types.Named]bool{}, held: map[*types.Named][]*ssa.Function{}}
	for _, r := range roots {
		a.reach(r, callerOf{})
	}
	for len(a.work) > 0 {
		f := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.scan(f)
	}
	return a
}

func (a *rta) reach(f *ssa.Function, c callerOf) {
	f = a.w.real(f)
	if f == nil {
		return
	}
	if len(f.Blocks) == 0 || a.w.sysBoundary(fnPkgPath(f)) && !(c.f != nil && a.w.sysBoundary(fnPkgPath(c.f))) && f.Name() != "init" {
		a.ext[f] = append(a.ext[f], c)
		return
	}
	if _, ok := a.from[f]; ok {
		return
	}
	a.from[f] = c
	a.work = append(a.work, f)
}

// nilOnly: a method of an engine struct that no reachable code creates; what follows the first access through
// its receiver never runs.
func (a *rta) nilOnly(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil || len(f.Params) == 0 || !isTsgoPath(fnPkgPath(f)) {
		return nil
	}
	p, ok := f.Signature.Recv().Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	if n == nil || a.created[n] {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// create: values of the type come into being.
func (a *rta) create(t types.Type) {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if a.created[x] {
			return
		}
		a.created[x] = true
		// what was held back
		fs := a.held[x]
		delete(a.held, x)
		for _, f := range fs {
			a.work = append(a.work, f)
		}
		a.create(x.Underlying())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			a.create(x.Field(i).Type())
		}
	case *types.Array:
		a.create(x.Elem())
	case *types.Slice:
		a.create(x.Elem())
	case *types.Map:
		a.create(x.Elem())
		a.create(x.Key())
	case *types.Chan:
		a.create(x.Elem())
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			a.create(x.At(i).Type())
		}
	}
}

func (a *rta) scan(f *ssa.Function) {
	n := a.nilOnly(f)
	if n != nil {
		a.held[n] = append(a.held[n], f)
	}
	dead := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if dead[b] {
			continue
		}
		for _, in := range b.Instrs {
			if n != nil {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
					for _, d := range f.Blocks {
						if d != b && b.Dominates(d) {
							dead[d] = true
						}
					}
					break
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if al, ok := v.(*ssa.Alloc); ok {
					a.create(deref(al.Type()))
				} else if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
					a.create(v.Type())
				}
			}
			c := callerOf{f, in}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					a.reach(g, c)
				}
			}
			switch x := in.(type) {
			case *ssa.MakeInterface:
				a.addType(x.X.Type())
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					s := invokeSite{c, cc.Method, cc.Value.Type()}
					a.invoked[cc.Method.Name()] = append(a.invoked[cc.Method.Name()], s)
					for _, t := range a.rtypes {
						a.bind(s, t)
					}
				}
			}
		}
	}
}

func (a *rta) addType(t types.Type) {
	k := types.TypeString(t, nil)
	if _, ok := a.rtypes[k]; ok {
		return
	}
	a.rtypes[k] = t
	for _, ss := range a.invoked {
		for _, s := range ss {
			a.bind(s, t)
		}
	}
}

func (a *rta) bind(s invokeSite, t types.Type) {
	sel := a.w.Prog.MethodSets.MethodSet(t).Lookup(s.m.Pkg(), s.m.Name())
	if sel == nil {
		return
	}
	it, ok := s.t.Underlying().(*types.Interface)
	if !ok || !types.Implements(t, it) {
		return
	}
	if f := a.w.Prog.MethodValue(sel); f != nil {
		a.reach(f, s.c)
	}
}

func (a *rta) chain(f *ssa.Function) string {
	var res []string
	for i := 0; f != nil && i < 12; i++ {
		res = append(res, fnName(f))
		f = a.from[f].f
	}
	return strings.Join(res, " <- ")
}

func init() {
	register("C23", "Linting changes nothing on the machine",
		"Rapid type analysis from the entry point of the command over the repository, the type-checked (patched) engine and all third-party packages, through the shim links; mentioning a function counts as calling it. Every reachable use of a standard-library (or x/sys) function that can act outside the process is compared with the list of those that only read or only act on handles that are already open. Methods of engine structs that no reachable code creates are cut off after the first access through their (necessarily nil) receiver. Files are created only under a name that comes from a command line option.",
		checkC23)
}

// stdReads: functions of the packages that reach the operating system which change nothing outside the process.
var stdReads = map[string]map[string]bool{
	"os": set("Getenv", "LookupEnv", "Environ", "ExpandEnv", "Expand", "Getwd", "Exit", "Stat", "Lstat", "ReadFile", "ReadDir", "Open", "DirFS", "IsNotExist", "IsExist", "IsPermission",
		"IsTimeout", "IsPathSeparator", "SameFile", "Executable", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid", "Hostname", "UserHomeDir", "UserCacheDir", "UserConfigDir", "TempDir",
		"Readlink", "Getpagesize", "NewFile", "Error", "Unwrap", "Timeout", "Is",
		// methods of open files and of directory entries
		"Read", "ReadAt", "ReadFrom", "Seek", "Close", "Name", "Fd", "Readdir", "Readdirnames", "Write", "WriteAt", "WriteString", "WriteTo", "Sync", "SetDeadline",
		"IsDir", "Mode", "ModTime", "Size", "Sys", "Type", "Info", "String", "Perm", "IsRegular", "SyscallConn", "SetReadDeadline", "SetWriteDeadline"),
	"path/filepath":         nil,
	"io/fs":                 nil,
	"syscall":               set("Error", "Is", "Temporary", "Timeout", "Getpid", "Getpagesize", "Stat", "Lstat", "Fstat", "Getrusage", "Gettimeofday", "Sysinfo", "ByteSliceFromString", "BytePtrFromString", "Getwd", "Getenv", "Environ", "Read", "Pread", "Getuid", "Getgid", "Nano", "Unix", "Exit", "Getrlimit", "Write"),
	"golang.org/x/sys/unix": set("Stat", "Lstat", "Fstat", "Fstatat", "Readlink", "Readlinkat", "Close", "Getpid", "Getwd", "Sysinfo", "Uname", "Read", "Pread", "Getrusage", "ByteSliceToString", "ByteSliceFromString", "BytePtrFromString", "SysctlUint64", "SysctlUint32", "SysctlRaw", "Sysctl", "Open", "Openat", "FcntlInt"),
	"golang.org/x/sys/cpu":  nil,
	"runtime/debug":         set("ReadBuildInfo", "SetGCPercent", "SetMemoryLimit", "FreeOSMemory", "Stack", "PrintStack", "ReadGCStats", "SetMaxStack", "SetPanicOnFault", "String"),
	"log/syslog":            {},
	"os/exec":               set("Error", "Unwrap", "LookPath"),
	"os/signal":             set("Notify", "NotifyContext", "Stop", "Ignore", "Reset"),
	"os/user":               nil,
	"plugin":                {},
	"io/ioutil":             set("ReadAll", "ReadFile", "ReadDir", "NopCloser"),
	"net/url":               nil,
	"net/netip":             nil,
	"net/textproto":         nil,
	"net/mail":              nil,
	"testing":               set("Testing", "Short", "Verbose"),
}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// reachesSystem: the package has functions that act outside the process.
func reachesSystem(p string) bool {
	if _, ok := stdReads[p]; ok {
		return true
	}
	for _, x := range []string{"os", "net", "syscall", "plugin", "io/ioutil", "golang.org/x/sys", "internal/syscall", "internal/poll", "log/syslog", "crypto/tls", "database/sql", "testing"} {
		if p == x || strings.HasPrefix(p, x+"/") {
			return true
		}
	}
	return false
}

// isStdFn: code whose insides are not followed.
func (w *World) sysBoundary(p string) bool {
	return strings.HasPrefix(p, "golang.org/x/sys/")
}

func checkC23(r *R) {
	w := r.W
	r.Rule("no-effect", "no reachable function acts on files, processes or the network other than by reading")
	r.Rule("open-read", "files are opened for reading only")
	r.Rule("named-output", "a file is created only under a name given by a command line option, and only when one is given")
	mainFn := w.lookupFn(pCmd, "", "main")
	if !r.Need(mainFn != nil, "func main of the command") {
		return
	}
	roots := []*ssa.Function{mainFn}
	if f := headlessRoot(w); f != nil {
		roots = append(roots, f)
	}
	reflective := set("UnmarshalJSON", "MarshalJSON", "UnmarshalJSONFrom", "MarshalJSONTo", "UnmarshalText", "MarshalText", "String", "Error", "GoString", "Format", "LogValue", "Set")
	for _, p := range w.L.Order {
		if !p.Bodies || p.Types == nil {
			continue
		}
		sp := w.Prog.Package(p.Types)
		if sp == nil {
			continue
		}
		var ns []string
		for n := range sp.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if n == "init" || strings.HasPrefix(n, "init#") {
					roots = append(roots, m)
				}
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || !p.Repo || nt.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if reflective[nt.Method(i).Name()] {
						roots = append(roots, w.Prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	a := newRTA(w, roots...)
	r.Info["functions reachable"] = len(a.from)
	r.Info["library functions reached"] = len(a.ext)
	if !r.Need(len(a.from) > 5000, "the engine behind the linter") {
		return
	}
	var keys []*ssa.Function
	for f := range a.ext {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	var created []callerOf
	for _, f := range keys {
		p := fnPkgPath(f)
		if !reachesSystem(p) {
			r.Obl["no-effect"]++
			r.Disch["no-effect"]++
			continue
		}
		allowed, listed := stdReads[p]
		name := f.Name()
		ok := listed && (allowed == nil || allowed[name]) || name == "init" || strings.HasPrefix(name, "init$")
		for _, c := range a.ext[f] {
			if c.f == nil || w.sysBoundary(fnPkgPath(c.f)) {
				continue // (x/sys setting itself up)
			}
			pos := w.pos(c.site.Pos())
			con := p + "." + name + " in " + fnName(c.f)
			switch {
			case p == "os" && (name == "Create" || name == "OpenFile") && isRepoPath(fnPkgPath(c.f)):
				if name == "OpenFile" && readOnlyOpen(c.site) {
					r.Ob("open-read", con, true, pos, "")
					continue
				}
				created = append(created, c)
			case p == "os" && name == "OpenFile" || p == "golang.org/x/sys/unix" && (name == "Open" || name == "Openat"):
				r.Ob("open-read", con, readOnlyOpen(c.site), pos, "a file is opened for writing: "+a.chain(c.f))
			default:
				r.Ob("no-effect", con, ok, pos, "this acts on the world outside of the process: "+a.chain(c.f))
			}
		}
	}
	a.outputs(r, created)
	r.Min("no-effect", 300)
	r.Assume = append(r.Assume, "standard-library functions outside the packages os, net, syscall and the like do not act outside the process except on handles passed to them",
		"methods called by reflection are those of the usual encoding and formatting interfaces")
}

// readOnlyOpen: the flags argument is a constant without write, create, truncate or append bits.
func readOnlyOpen(site ssa.Instruction) bool {
	c, ok := site.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) < 2 {
		return false
	}
	for _, a := range c.Common().Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, ok := constInt(a)
			const wr = 0x1 | 0x2 | 0x40 | 0x200 | 0x400 // O_WRONLY O_RDWR O_CREAT O_TRUNC O_APPEND on linux
			return ok && n&wr == 0
		}
	}
	return false
}

// outputs: the files the program creates itself.
func (a *rta) outputs(r *R, created []callerOf) {
	w := a.w
	if len(created) == 0 {
		return
	}
	h := headless(r)
	if h == nil {
		return
	}
	for _, c := range created {
		con, pos := "output in "+fnName(c.f), w.pos(c.site.Pos())
		found := false
		call, ok := c.site.(ssa.CallInstruction)
		if !ok || call.Common().StaticCallee() == nil {
			r.Bad("named-output", con, pos, "the function that creates files is passed on")
			continue
		}
		for _, n := range h.Nodes {
			if n.I != c.site {
				continue
			}
			found = true
			os := h.G.Origins(VV{n.F, call.Common().Args[0]})
			good := len(os) > 0
			for _, o := range os {
				good = good && h.isFlagValue(o)
			}
			r.Ob("named-output", con, good, pos, "the name of the file is not the value of a command line option: "+originStrings(os))
			// only when a name was given
			path := h.anchor(VV{n.F, call.Common().Args[0]})
			seen := h.G.Reach([]Node{h.Entry}, nil, func(from Node, e Edge) bool {
				x, ok := from.I.(*ssa.If)
				return ok && h.nonEmptyEdge(from.F, x, e, path)
			})
			r.Ob("named-output", con+": only when asked for", !seen[n], pos, "the file is created even if the option is not given")
		}
		if !found {
			r.Bad("named-output", con, pos, "a file is created outside of the request handling: "+a.chain(c.f))
		}
	}
}

// isFlagValue: the origin is the cell of a string option with an empty default.
func (h *Headless) isFlagValue(o Origin) bool {
	for _, n := range h.Nodes {
		c := callOf(n)
		if c == nil || !h.G.Opaque(n) {
			continue
		}
		cp := calleePath(c)
		if !strings.HasPrefix(cp, "flag.") || len(c.Args) < 3 {
			continue
		}
		empty := false
		for _, a := range c.Args[1:] {
			if s, ok := constStr(a); ok && s == "" {
				empty = true
			}
		}
		if !empty {
			continue
		}
		if strings.HasSuffix(cp, "StringVar") {
			for i := range c.Args[:2] {
				if _, ok := c.Args[i].Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				for _, l := range h.G.addr(VV{n.F, c.Args[i]}, map[okey]bool{}) {
					if (Origin{l.Root.F, l.Root.V, "*" + l.Path}) == o {
						return true
					}
				}
			}
		} else if call, ok := n.I.(*ssa.Call); ok && strings.HasSuffix(cp, ".String") {
			if (Origin{n.F, call, "*"}) == o {
				return true
			}
		}
	}
	return false
}

// nonEmptyEdge: the edge is taken only when the string is not empty.
func (h *Headless) nonEmptyEdge(f *Frame, x *ssa.If, e Edge, path Anchor) bool {
	c := x.Cond
	neg := false
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok {
			break
		}
		c, neg = u.X, !neg
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		same := func(v ssa.Value) bool { return h.sameAnchor(h.anchor(VV{f, v}), path) || h.sameOrigins(VV{f, v}, path) }
		isLen := false
		v := pr[0]
		if l := lenArg(v); l != nil {
			v, isLen = l, true
		}
		if !same(v) {
			continue
		}
		nonEmptyWhen := -1
		s, okS := constStr(pr[1])
		n, okN := constInt(pr[1])
		switch {
		case !isLen && okS && s == "" || isLen && okN && n == 0:
			switch b.Op.String() {
			case "!=":
				nonEmptyWhen = 1
			case "==":
				nonEmptyWhen = 0
			case ">":
				if pr[0] == b.X {
					nonEmptyWhen = 1
				}
			case "<":
				if pr[0] == b.Y {
					nonEmptyWhen = 1
				}
			case "<=":
				if pr[0] == b.X {
					nonEmptyWhen = 0
				}
			}
		}
		if nonEmptyWhen < 0 {
			return false
		}
		if neg {
			nonEmptyWhen = 1 - nonEmptyWhen
		}
		return e.Branch == nonEmptyWhen
	}
	return false
}

func (h *Headless) sameOrigins(v VV, a Anchor) bool {
	if a.V == nil {
		return false
	}
	x := h.G.Origins(v)
	y := h.G.OriginsPath(VV{a.F, a.V}, a.Path)
	return len(x) == 1 && len(y) == 1 && x[0] == y[0]
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallGraph is a conservative call graph of the repository.
type CallGraph struct {
	p     *Program
	sites map[*ssa.Function][]CallSite
	// byName lists the methods that may implement an interface method.
	taken []*ssa.Function
}

// CallSite is a call or a reference to a function.
type CallSite struct {
	in ssa.Instruction
	to *ssa.Function
	// ref is set when the function is only referred to (closures, function values).
	ref bool
}

func newCallGraph(p *Program) *CallGraph {
	g := &CallGraph{p: p, sites: map[*ssa.Function][]CallSite{}}
	var named []types.Type
	for _, sp := range p.repoPkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					named = append(named, tn.Type(), types.NewPointer(tn.Type()))
				}
			}
		}
	}
	var dyn []struct {
		fn  *ssa.Function
		in  ssa.Instruction
		sig *types.Signature
	}
	takenSet := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var common *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					common = c.Common()
					switch {
					case common.IsInvoke():
						it, _ := common.Value.Type().Underlying().(*types.Interface)
						for _, t := range named {
							if it != nil && types.Implements(t, it) {
								if m := p.prog.LookupMethod(t, common.Method.Pkg(), common.Method.Name()); m != nil && p.inRepoFn(m) {
									g.add(fn, in, g.unwrap(m), false)
								}
							}
						}
					case common.StaticCallee() != nil:
						g.add(fn, in, common.StaticCallee(), false)
					default:
						if _, isB := common.Value.(*ssa.Builtin); !isB {
							dyn = append(dyn, struct {
								fn  *ssa.Function
								in  ssa.Instruction
								sig *types.Signature
							}{fn, in, common.Signature()})
						}
					}
				}
				var ops []*ssa.Value
				for i, o := range in.Operands(ops) {
					if f, ok := (*o).(*ssa.Function); ok {
						if common != nil && i == 0 && !common.IsInvoke() && common.Value == f {
							continue
						}
						if p.inRepoFn(f) || f.Synthetic != "" {
							takenSet[f] = true
						}
					}
				}
			}
		}
	}
	for f := range takenSet {
		g.taken = append(g.taken, f)
	}
	sort.Slice(g.taken, func(i, j int) bool { return g.taken[i].String() < g.taken[j].String() })
	for _, d := range dyn {
		for _, f := range g.taken {
			if sameParams(f.Signature, d.sig) {
				g.add(d.fn, d.in, g.unwrap(f), false)
			}
		}
	}
	return g
}

func sameParams(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// unwrap finds the source function behind a synthetic wrapper.
func (g *CallGraph) unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && f != nil && f.Synthetic != "" && f.Origin() == nil; i++ {
		var in *ssa.Function
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						in = s
					}
				}
			}
		}
		if in == nil {
			break
		}
		f = in
	}
	return f
}

func (g *CallGraph) add(from *ssa.Function, in ssa.Instruction, to *ssa.Function, ref bool) {
	if to == nil {
		return
	}
	g.sites[from] = append(g.sites[from], CallSite{in, to, ref})
}

// reach lists the functions of the repository reachable from some functions.
// Function literals count as reachable when the function that makes them is.
func (g *CallGraph) reach(from ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	todo := append([]*ssa.Function(nil), from...)
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if f == nil || seen[f] || !g.p.inRepoFn(f) {
			continue
		}
		seen[f] = true
		for _, s := range g.sites[f] {
			todo = append(todo, s.to)
		}
		todo = append(todo, f.AnonFuncs...)
	}
	return seen
}

// api lists the exported functions and methods of the library.
func (p *Program) api() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.fns {
		if fn.Parent() != nil || !p.library(fn) {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() {
			r = append(r, fn)
		}
	}
	return r
}

// library tells whether a function belongs to the library (not to an example or test helper).
func (p *Program) library(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			path := f.Pkg.Pkg.Path()
			return !strings.Contains(path, "/_example") && !strings.Contains(path, "/internal/util_test") && f.Pkg.Pkg.Name() != "main"
		}
		if o := f.Origin(); o != nil && o != f {
			return p.library(o)
		}
	}
	return true
}

func (p *Program) finding(cat string, pos token.Pos, fn *ssa.Function, format string, args ...interface{}) *Finding {
	f := &Finding{Cat: cat, Pos: pos, Msg: fmt.Sprintf(format, args...)}
	if !pos.IsValid() && fn != nil {
		f.Pos = fn.Pos()
	}
	return f
}

func (p *Program) names(fns map[*ssa.Function]bool) []string {
	var r []string
	for f := range fns {
		r = append(r, strings.TrimPrefix(f.RelString(nil), modPath+"/"))
	}
	sort.Strings(r)
	return r
}

// root follows addresses and derived values to the values they come from.
type origin struct {
	global *ssa.Global
	param  *ssa.Parameter
	free   *ssa.FreeVar
	loaded bool // through at least one load
}

// origins lists where a pointer, slice or map value may come from.
func origins(v ssa.Value) []origin {
	var r []origin
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, loaded bool)
	walk = func(v ssa.Value, loaded bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Global:
			r = append(r, origin{global: v, loaded: loaded})
		case *ssa.Parameter:
			r = append(r, origin{param: v, loaded: loaded})
		case *ssa.FreeVar:
			r = append(r, origin{free: v, loaded: loaded})
		case *ssa.FieldAddr:
			walk(v.X, loaded)
		case *ssa.IndexAddr:
			walk(v.X, loaded)
		case *ssa.Field:
			walk(v.X, loaded)
		case *ssa.Index:
			walk(v.X, loaded)
		case *ssa.Slice:
			walk(v.X, loaded)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, loaded)
			}
		case *ssa.ChangeType:
			walk(v.X, loaded)
		case *ssa.Convert:
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				walk(v.X, loaded)
			}
		case *ssa.ChangeInterface:
			walk(v.X, loaded)
		case *ssa.MakeInterface:
			walk(v.X, loaded)
		case *ssa.TypeAssert:
			walk(v.X, loaded)
		case *ssa.Extract:
			walk(v.Tuple, loaded)
		case *ssa.Lookup:
			walk(v.X, true)
		case *ssa.Next:
			walk(v.Iter, true)
		case *ssa.Range:
			walk(v.X, true)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				// a local variable holds what is stored into it
				if a, ok := v.X.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
							walk(s.Val, loaded)
						}
					}
					return
				}
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					if a, ok := fa.X.(*ssa.Alloc); ok {
						for _, ref := range *a.Referrers() {
							if f2, ok := ref.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
								for _, r2 := range *f2.Referrers() {
									if s, ok := r2.(*ssa.Store); ok && s.Addr == f2 {
										walk(s.Val, loaded)
									}
								}
							}
						}
						return
					}
				}
				walk(v.X, true)
			}
		case *ssa.Call:
			// append may return the memory of its first argument
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(v.Call.Args[0], loaded)
			}
		}
	}
	walk(v, false)
	return r
}

// writes lists the memory writes of a function: the instruction and the written pointer, slice or map.
type write struct {
	in   ssa.Instruction
	to   ssa.Value
	what string
}

func writesOf(fn *ssa.Function) []write {
	var r []write
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				r = append(r, write{in, in.Addr, "store"})
			case *ssa.MapUpdate:
				r = append(r, write{in, in.Map, "map update"})
			case ssa.CallInstruction:
				if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						r = append(r, write{in, in.Common().Args[0], "append"})
					case "copy", "delete", "clear":
						r = append(r, write{in, in.Common().Args[0], bi.Name()})
					}
				}
				if f := in.Common().StaticCallee(); f != nil && f.Pkg != nil {
					switch f.Pkg.Pkg.Path() {
					case "sort", "slices":
						if len(in.Common().Args) > 0 && !strings.HasPrefix(f.Name(), "Search") && !strings.HasPrefix(f.Name(), "Is") && !strings.HasPrefix(f.Name(), "Contains") && !strings.HasPrefix(f.Name(), "Index") && !strings.HasPrefix(f.Name(), "Equal") && !strings.HasPrefix(f.Name(), "Clone") && !strings.HasPrefix(f.Name(), "Concat") {
							r = append(r, write{in, in.Common().Args[0], f.String()})
						}
					}
				}
			}
		}
	}
	return r
}

func mutableType(t types.Type) bool {
	seen := map[types.Type]bool{}
	var m func(t types.Type) bool
	m = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if m(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return m(u.Elem())
		case *types.Interface:
			return t.String() != "error"
		}
		return false
	}
	return m(t)
}

// checkC27 looks for mutable memory shared through package variables.
func checkC27(p *Program, tier string) (*Report, error) {
	g := newCallGraph(p)
	r := &Report{Rule: "effect analysis: no function reachable from the exported API writes a package variable or memory reached through one, and no pointer, slice or map of a package variable escapes into results, fields or other calls"}
	reach := g.reach(p.api()...)
	writes, uses := 0, 0
	for _, fn := range p.fns {
		if !reach[fn] || p.isInit(fn) || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, w := range writesOf(fn) {
			writes++
			for _, o := range origins(w.to) {
				if o.global != nil {
					r.add(p.finding("shared", w.in.Pos(), fn, "%s to memory of the package variable %s, which all parses share", w.what, o.global.Name()))
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if gl, ok := (*o).(*ssa.Global); ok {
						uses++
						if !p.inRepo(gl.Pkg) {
							if _, isLoad := in.(*ssa.UnOp); !isLoad {
								r.add(p.finding("shared", in.Pos(), fn, "the package variable %s of another package is used by reference", gl))
							}
							continue
						}
						for _, esc := range escapes(p, in, gl) {
							r.add(p.finding("shared", esc.Pos(), fn, "memory of the package variable %s escapes (%s), so that all parses share it", gl.Name(), instrKind(esc)))
						}
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					r.add(p.finding("shared", in.Pos(), fn, "a goroutine is started"))
				}
			}
		}
	}
	r.cover("functions_reachable_from_the_api", len(reach))
	r.cover("memory_writes_classified", writes)
	r.cover("package_variable_uses", uses)
	var gl []string
	for _, v := range p.globals {
		if p.inRepo(v.Pkg) && !strings.HasPrefix(v.Name(), "init$") {
			gl = append(gl, strings.TrimPrefix(v.String(), modPath+"/"))
		}
	}
	r.cover("package_variables", gl)
	r.Assume = []string{"the standard library functions in use keep no state of their own that differs between calls", "no unsafe, cgo or reflection (checked: " + fmt.Sprint(len(p.globals)) + " variables, imports listed by C30)"}
	return r, nil
}

func instrKind(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Return:
		return "returned"
	case *ssa.Store:
		return "stored"
	case ssa.CallInstruction:
		return "passed to " + in.Common().Value.Name()
	case *ssa.MakeInterface:
		return "converted to an interface"
	case *ssa.MakeClosure:
		return "captured"
	}
	return fmt.Sprintf("%T", in)
}

// escapes lists the instructions through which the memory of a global gets away from an access.
func escapes(p *Program, in ssa.Instruction, gl *ssa.Global) []ssa.Instruction {
	var r []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	use := func(in ssa.Instruction, v ssa.Value) {
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && mutableType(x.Type()) {
				follow(x)
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Next, *ssa.Range:
			if y := x.(ssa.Value); mutableType(y.Type()) || isTuple(y) || isIter(x) {
				follow(y)
			}
		case *ssa.Lookup:
			if mutableType(x.Type()) {
				follow(x)
			}
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.MapUpdate:
			if x.Map != v {
				r = append(r, in)
			}
		case *ssa.Store:
			if x.Addr != v {
				r = append(r, in)
			}
		case ssa.CallInstruction:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					return
				case "append", "copy":
					if len(c.Args) > 1 && c.Args[1] == v && c.Args[0] != v {
						if s, ok := v.Type().Underlying().(*types.Slice); ok && mutableType(s.Elem()) {
							r = append(r, in)
						}
						return
					}
					return // the write is reported
				}
			}
			if f := c.StaticCallee(); f != nil && f.Pkg != nil && !p.inRepo(f.Pkg) {
				switch f.Pkg.Pkg.Path() {
				case "strings", "fmt", "errors", "unicode", "strconv", "slices", "maps", "bytes":
					return
				case "regexp":
					return // safe for concurrent use
				}
			}
			if _, isFn := v.Type().Underlying().(*types.Signature); isFn {
				return
			}
			r = append(r, in)
		default:
			r = append(r, in)
		}
	}
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			use(ref, v)
		}
	}
	use(in, gl)
	return r
}

func isTuple(v ssa.Value) bool { _, ok := v.Type().(*types.Tuple); return ok }

func isIter(in ssa.Instruction) bool { _, ok := in.(*ssa.Range); return ok }

// checkC28 looks for writes to AST memory in functions that must only read it.
func checkC28(p *Program, tier string) (*Report, error) {
	g := newCallGraph(p)
	r := &Report{Rule: "effect analysis: no function reachable from an Accept method, from the unordered interpretation or from an accessor of an AST element writes through its parameters or through memory loaded from them (appending to such a slice counts as a write)"}
	var roots []*ssa.Function
	vis := p.typ("parser", "Visitee")
	for _, fn := range p.fns {
		if fn.Parent() != nil || !p.library(fn) {
			continue
		}
		pkg := p.pkgOf(fn)
		recv := fn.Signature.Recv()
		switch {
		case strings.HasPrefix(pkg, "interpret") && fn.Object() != nil && fn.Object().Exported():
			roots = append(roots, fn)
		case pkg == "" && fn.Signature.Params().Len() > 0 && isPtrTo(fn.Signature.Params().At(0).Type(), p.typ("parser", "Proto")):
			roots = append(roots, fn)
		case recv != nil && (pkg == "parser" || pkg == "parser/meta") && fn.Object() != nil && fn.Object().Exported():
			t := recv.Type()
			if isPtrTo(t, p.typ("parser", "Parser")) || strings.HasPrefix(fn.Name(), "Set") {
				continue
			}
			if vis != nil {
				roots = append(roots, fn)
			}
		}
	}
	reach := g.reach(roots...)
	// what a function may write through its parameters
	n := 0
	mut := map[*ssa.Function]map[int]token.Pos{} // parameter -> position of the write
	for changed := true; changed; {
		changed = false
		for _, fn := range p.fns {
			if !reach[fn] {
				continue
			}
			mark := func(prm *ssa.Parameter, pos token.Pos) {
				for i, q := range fn.Params {
					if q == prm {
						if mut[fn] == nil {
							mut[fn] = map[int]token.Pos{}
						}
						if _, ok := mut[fn][i]; !ok {
							mut[fn][i] = pos
							changed = true
						}
					}
				}
			}
			for _, w := range writesOf(fn) {
				for _, o := range origins(w.to) {
					if o.param != nil {
						mark(o.param, w.in.Pos())
					}
				}
			}
			for _, s := range g.sites[fn] {
				c, ok := s.in.(ssa.CallInstruction)
				if !ok || mut[s.to] == nil {
					continue
				}
				args := c.Common().Args
				off := 0
				if c.Common().IsInvoke() {
					args = append([]ssa.Value{c.Common().Value}, args...)
				}
				for i := range mut[s.to] {
					if i+off < len(args) {
						for _, o := range origins(args[i+off]) {
							if o.param != nil {
								mark(o.param, c.Pos())
							}
						}
					}
				}
			}
		}
	}
	rootSet := map[*ssa.Function]bool{}
	for _, fn := range roots {
		rootSet[fn] = true
	}
	ast := map[string]bool{"parser": true, "parser/meta": true}
	for _, fn := range p.fns {
		if !reach[fn] {
			continue
		}
		n += len(writesOf(fn))
		for i, pos := range mut[fn] {
			// helpers may fill lists of their callers; what counts is what reaches the roots
			if rootSet[fn] && p.holdsAST(fn.Params[i].Type(), ast, 0) {
				r.add(p.finding("impure", pos, fn, "%s can be modified through the parameter %s", typeName(fn.Params[i].Type()), fn.Params[i].Name()))
			}
		}
		for _, w := range writesOf(fn) {
			for _, o := range origins(w.to) {
				if o.free != nil && p.holdsAST(o.free.Type(), ast, 0) && o.loaded && w.what != "append" && isASTWrite(p, w, ast) {
					r.add(p.finding("impure", w.in.Pos(), fn, "an AST element captured by a function literal can be modified"))
				}
			}
		}
	}
	r.cover("roots", p.names(rootSet))
	r.cover("functions_analysed", len(reach))
	r.cover("memory_writes_classified", n)
	r.Assume = []string{"the visitor passed by the caller is not part of the library; what it does to the elements is its own business"}
	return r, nil
}

func isASTWrite(p *Program, w write, ast map[string]bool) bool {
	if fa, ok := w.to.(*ssa.FieldAddr); ok {
		return p.holdsAST(fa.X.Type(), ast, 0)
	}
	return false
}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func isPtrTo(t types.Type, n *types.Named) bool {
	pt, ok := t.(*types.Pointer)
	return ok && n != nil && types.Identical(pt.Elem(), n)
}

// holdsAST tells whether values of the type lead to AST memory.
func (p *Program) holdsAST(t types.Type, ast map[string]bool, depth int) bool {
	if depth > 4 {
		return false
	}
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() != nil {
			rel := strings.TrimPrefix(strings.TrimPrefix(u.Obj().Pkg().Path(), modPath), "/")
			if ast[rel] && u.Obj().Name() != "Parser" && u.Obj().Name() != "Visitor" && u.Obj().Name() != "ConfigOption" {
				return true
			}
		}
	case *types.Pointer:
		return p.holdsAST(u.Elem(), ast, depth+1)
	case *types.Slice:
		return p.holdsAST(u.Elem(), ast, depth+1)
	case *types.Map:
		return p.holdsAST(u.Elem(), ast, depth+1)
	case *types.Array:
		return p.holdsAST(u.Elem(), ast, depth+1)
	}
	return false
}

var effectPkgs = map[string]bool{
	"os": true, "net": true, "syscall": true, "os/exec": true, "io/ioutil": true, "os/signal": true, "plugin": true,
	"net/http": true, "unsafe": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "embed": true,
	"os/user": true, "runtime/debug": true, "runtime/pprof": true, "testing": true, "database/sql": true, "log/syslog": true, "path/filepath!": true, "flag": true, "expvar": true, "golang.org/x/sys/unix": true,
}

// checkC30 looks for side effects.
func checkC30(p *Program, tier string) (*Report, error) {
	g := newCallGraph(p)
	r := &Report{Rule: "effect analysis: no function reachable from the exported API (or run at package initialisation) calls or refers to a function that touches files, sockets, the standard streams, the process, the environment or the clock, starts a goroutine, or writes to a given reader's side channels; logging is allowed"}
	roots := p.api()
	for _, sp := range p.repoPkgs {
		if f := sp.Func("init"); f != nil && sp.Pkg.Name() != "main" {
			roots = append(roots, f)
		}
	}
	reach := g.reach(roots...)
	ext := map[string]bool{}
	bad := func(fn *ssa.Function, pos token.Pos, what string) {
		r.add(p.finding("effect", pos, fn, "%s", what))
	}
	var list []*ssa.Function
	for fn := range reach {
		if p.library(fn) {
			list = append(list, fn)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, fn := range list {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					bad(fn, in.Pos(), "starts a goroutine")
				}
				if _, ok := in.(*ssa.Send); ok {
					bad(fn, in.Pos(), "sends on a channel")
				}
				for _, o := range in.Operands(nil) {
					switch x := (*o).(type) {
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							bad(fn, in.Pos(), "writes to the standard error stream with "+x.Name())
						}
					case *ssa.Global:
						if x.Pkg != nil && effectPkgs[x.Pkg.Pkg.Path()] {
							bad(fn, in.Pos(), "uses "+x.Pkg.Pkg.Path()+"."+x.Name())
						}
					case *ssa.Function:
						if p.inRepoFn(x) {
							continue
						}
						if p.isInit(x) {
							continue
						}
						name := x.RelString(nil)
						ext[name] = true
						path := ""
						if x.Pkg != nil {
							path = x.Pkg.Pkg.Path()
						} else if x.Object() != nil && x.Object().Pkg() != nil {
							path = x.Object().Pkg().Path()
						}
						switch {
						case effectPkgs[path] && !pureOf[name]:
							bad(fn, in.Pos(), "refers to "+name)
						case path == "fmt" && (strings.HasPrefix(x.Name(), "Print") || strings.HasPrefix(x.Name(), "Scan")):
							bad(fn, in.Pos(), "uses the standard streams with "+name)
						case path == "log" && (strings.Contains(x.Name(), "Fatal") || strings.Contains(x.Name(), "Panic") || strings.HasPrefix(x.Name(), "Set")):
							bad(fn, in.Pos(), "calls "+name+", which exits, panics or changes the logger of the process")
						case path == "runtime" && (x.Name() == "GC" || x.Name() == "Goexit" || x.Name() == "GOMAXPROCS" || x.Name() == "Gosched"):
							bad(fn, in.Pos(), "calls "+name)
						case path == "time" && (x.Name() == "Sleep" || x.Name() == "Now" || strings.HasPrefix(x.Name(), "New") || strings.HasPrefix(x.Name(), "After")):
							bad(fn, in.Pos(), "calls "+name)
						case path == "path/filepath" && (strings.HasPrefix(x.Name(), "Walk") || x.Name() == "Glob" || x.Name() == "EvalSymlinks" || x.Name() == "Abs"):
							bad(fn, in.Pos(), "reads the file system with "+name)
						case path == "sync" && strings.Contains(name, "Pool"):
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					if m.Pkg() != nil && m.Pkg().Path() == "io" && m.Name() != "Read" && m.Name() != "ReadRune" && m.Name() != "ReadByte" && m.Name() != "UnreadRune" && m.Name() != "UnreadByte" {
						bad(fn, in.Pos(), "calls "+m.FullName()+" on the caller's reader")
					}
				}
			}
		}
	}
	var names []string
	for n := range ext {
		names = append(names, n)
	}
	sort.Strings(names)
	r.cover("functions_analysed", len(list))
	r.cover("outside_functions_referred_to", names)
	r.Assume = []string{"the outside functions listed, other than logging and the caller's reader, have no effects beyond their results and the memory they are given"}
	return r, nil
}

var pureOf = map[string]bool{"os.IsNotExist": true, "os.IsExist": true}

func init() {
	checks["C27"] = Check{"other", checkC27}
	checks["C28"] = Check{"other", checkC28}
	checks["C30"] = Check{"other", checkC30}
}

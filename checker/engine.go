package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Out is one outcome of an operation.
type Out struct {
	st *State
	v  Val
}

// Sem gives the meaning of everything that depends on the analysis domain.
type Sem interface {
	Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool)
	Invoke(e *Engine, st *State, site ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool)
	BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool)
	Load(e *Engine, st *State, in *ssa.UnOp, p Val) ([]Out, bool)
	Store(e *Engine, st *State, in *ssa.Store, p, v Val) ([]*State, bool)
	FieldAddr(e *Engine, st *State, in *ssa.FieldAddr, x Val) ([]Out, bool)
	Index(e *Engine, st *State, in ssa.Instruction, x, i Val) ([]Out, bool)
	Slice(e *Engine, st *State, in *ssa.Slice, x, lo, hi Val) ([]Out, bool)
	TypeAssert(e *Engine, st *State, in *ssa.TypeAssert, x Val) ([]Out, bool)
	Lookup(e *Engine, st *State, in *ssa.Lookup, m VMapC, key Val) ([]Out, bool)
	Convert(e *Engine, st *State, in *ssa.Convert, x Val) ([]Out, bool)
	Len(e *Engine, st *State, x Val) (Val, bool)
	Append(e *Engine, st *State, site ssa.CallInstruction, x, y Val) ([]Out, bool)
	// ListEnd is told that an iteration over a spread ends, empty if it has no elements.
	// It returns false when that is impossible.
	ListEnd(e *Engine, st *State, sp Spread, empty bool) bool
	// LoopHead may push further states that still have to be visited. It returns false to drop the state.
	LoopHead(e *Engine, st *State) bool
	Canon(e *Engine, st *State)
	Finish(e *Engine, st *State, results []Val)
}

// Finding is a reported violation.
type Finding struct {
	Cat   string
	Pos   token.Pos
	Msg   string
	Trace []string
	Root  string

	Where, Func string // set if the position is not one of this process
}

// Engine explores the abstract states reachable from a root.
type Engine struct {
	restPhi *ssa.Phi // the variable that the iteration under decision shortens

	deadline int64
	prog     *Program
	sem      Sem
	fis      map[*ssa.Function]*FnInfo
	globals  map[*ssa.Global]int
	nbase    int
	baseHeap []Val
	root     string

	work    []*State
	seen    map[string][]seenVec
	groups  map[string]*group
	heap    groupHeap
	seq     int
	profile func(st *State)
	edges   map[[2]int]bool // true: all such edges made progress
	where   []token.Pos
	what    []string

	finds    map[string]*Finding
	States   int
	Steps    int
	Forks    int
	Returns  int
	Funcs    map[*ssa.Function]bool
	tick     int
	maxNodes int
	maxFinds int // stop when a root has that many findings
	breadth  bool
	diverged int // the number of states at which a diverging exploration ends
	globalWr func(pos token.Pos, g int)
	stopped  bool
}

func newEngine(p *Program) *Engine {
	return &Engine{
		prog:     p,
		fis:      p.fis,
		globals:  map[*ssa.Global]int{},
		finds:    map[string]*Finding{},
		Funcs:    map[*ssa.Function]bool{},
		maxNodes: maxNodes(),
	}
}

func (e *Engine) fi(fn *ssa.Function) *FnInfo {
	fi, ok := e.fis[fn]
	if !ok {
		fi = newFnInfo(fn)
		e.fis[fn] = fi
	}
	return fi
}

// report records a finding once per construct.
func (e *Engine) report(st *State, cat string, pos token.Pos, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if st != nil && st.taint && cat != "undecided" {
		if _, ok := e.sem.(interface{ Taints() }); ok {
			msg = "behind a condition that is not known: " + cat + " " + msg
			cat = "undecided"
		}
	}
	key := fmt.Sprintf("%s|%d|%s", cat, pos, msg)
	if _, ok := e.finds[key]; ok {
		return
	}
	if len(e.finds) > 400 {
		return
	}
	f := &Finding{Cat: cat, Pos: pos, Msg: msg, Root: e.root}
	if st != nil {
		for t := st.trace; t != nil && len(f.Trace) < 60; t = t.prev {
			s := t.note
			if t.item != nil {
				s = e.sem.(interface{ ItemNote(it *Item) string }).ItemNote(t.item)
			}
			if t.pos.IsValid() {
				s = e.prog.posStr(t.pos) + ": " + s
			}
			f.Trace = append(f.Trace, s)
		}
	}
	e.finds[key] = f
}

func (e *Engine) undecided(st *State, pos token.Pos, format string, args ...interface{}) {
	e.report(st, "undecided", pos, format, args...)
}

// findings returns the findings in a stable order.
func (e *Engine) findings() []*Finding {
	var r []*Finding
	for _, f := range e.finds {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Cat != r[j].Cat {
			return r[i].Cat < r[j].Cat
		}
		if r[i].Pos != r[j].Pos {
			return r[i].Pos < r[j].Pos
		}
		return r[i].Msg < r[j].Msg
	})
	return r
}

// setupGlobals allocates all globals the repository refers to and runs the package initialisers.
func (e *Engine) setupGlobals() {
	st := &State{}
	for _, g := range e.prog.globals {
		t := g.Type().(*types.Pointer).Elem()
		v := zeroVal(t)
		if !e.prog.inRepo(g.Pkg) {
			v = VOpaque{g.Pkg.Pkg.Path() + "." + g.Name()}
			if types.IsInterface(t) {
				v = VIface{types.Typ[types.UnsafePointer], v}
			}
		}
		e.globals[g] = st.alloc(v)
	}
	save := e.sem
	for _, p := range e.prog.repoPkgs {
		init := p.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		e.root = "init of " + p.Pkg.Path()
		st.frames = nil
		st.dirty = nil
		e.nbase = len(st.heap)
		e.push(st, init, nil, nil, nil)
		var last *State
		e.sem = initSem{done: func(s *State) { last = s }}
		e.explore(st)
		if last == nil {
			e.undecided(nil, init.Pos(), "package initialisation cannot be evaluated")
			last = st
		}
		st = last
		st.trace = nil
	}
	e.sem = save
	e.baseHeap = st.heap
	st.dirty = nil
	e.nbase = len(st.heap)
	e.edges, e.seen = nil, nil
}

type initSem struct {
	BaseSem
	done func(*State)
}

func (s initSem) Finish(e *Engine, st *State, results []Val) { s.done(st) }

// newState returns a state whose heap holds the initialised globals.
func (e *Engine) newState() *State {
	return &State{heap: append([]Val(nil), e.baseHeap...)}
}

// push enters a function.
func (e *Engine) push(st *State, fn *ssa.Function, args, free []Val, site ssa.Value) {
	fi := e.fi(fn)
	e.Funcs[fn] = true
	entered[fn.String()] = true
	f := &Frame{fi: fi, block: fn.Blocks[0], regs: make([]Val, fi.n), site: site}
	for i, p := range fn.Params {
		f.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.idx[p]] = free[i]
	}
	st.frames = append(st.frames, f)
}

// explore runs the worklist to the fixpoint. When there is none in reach, it
// starts again and visits what is near first, so that short violations are found.
func (e *Engine) explore(init *State) {
	again := init.clone()
	e.breadth = false
	n := len(e.finds)
	e.explore1(init)
	over := e.maxNodes
	if e.diverged > 0 && e.diverged < over {
		over = e.diverged
	}
	e.diverged = 0
	if len(e.where) > over && (e.maxFinds == 0 || len(e.finds) < n+2) {
		e.breadth = true
		e.explore1(again)
		e.breadth = false
	}
}

func (e *Engine) explore1(init *State) {
	e.seen = map[string][]seenVec{}
	e.groups = map[string]*group{}
	e.heap = nil
	e.edges = map[[2]int]bool{}
	e.where = nil
	e.what = nil
	e.stopped = false
	init.node = e.newNode(init)
	e.work = append(e.work[:0], init)
	n := len(e.finds)
	for !e.stopped {
		if e.maxFinds > 0 && len(e.finds) > n+e.maxFinds {
			break
		}
		if len(e.work) == 0 {
			if len(e.heap) == 0 {
				break
			}
			e.release()
			continue
		}
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.advance(st)
		max := e.maxNodes
		if e.diverged > 0 && e.diverged < max && !e.breadth {
			max = e.diverged
		}
		if e.breadth {
			max = 50000
			if e.maxFinds > 0 {
				max = 15000
			}
		}
		if len(e.where) > max {
			e.undecided(st, e.pos(st), "the analysis does not converge (more than %d abstract states)", max)
			e.stopped = true
		}
		if e.tick++; e.tick&255 == 0 && e.deadline > 0 && time.Now().Unix() > e.deadline {
			e.undecided(st, e.pos(st), "the time for the analysis is over")
			e.stopped = true
		}
		if e.tick&1023 == 0 && memLimit > 0 && residentMB() > memLimit {
			e.undecided(st, e.pos(st), "the memory for the analysis is used up")
			e.stopped = true
		}
	}
	e.checkProgress()
}

// memLimit bounds the memory of one exploration (in MB).
var memLimit = 6000

func residentMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int
	fmt.Sscan(string(b), &size, &res)
	return res * os.Getpagesize() >> 20
}

func (e *Engine) newNode(st *State) int {
	e.where = append(e.where, e.pos(st))
	e.what = append(e.what, frameNames(st))
	return len(e.where) - 1
}

func (e *Engine) pos(st *State) token.Pos {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		pc := f.pc
		if i < len(st.frames)-1 {
			pc--
		}
		for j := pc; j < len(f.block.Instrs) && j >= 0; j++ {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				return p
			}
		}
		for j := len(f.block.Instrs) - 1; j >= 0; j-- {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				return p
			}
		}
		if p := f.fi.fn.Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

// checkProgress looks for cycles of abstract states on which nothing is consumed.
func (e *Engine) checkProgress() {
	n := len(e.where)
	adj := make([][]int, n)
	for ed, prog := range e.edges {
		if !prog {
			adj[ed[0]] = append(adj[ed[0]], ed[1])
		}
	}
	// iterative Tarjan
	index := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var stack []int
	next := 1
	for v := 0; v < n; v++ {
		if index[v] != 0 {
			continue
		}
		type fr struct{ v, i int }
		cs := []fr{{v, 0}}
		index[v], low[v] = next, next
		next++
		stack = append(stack, v)
		on[v] = true
		for len(cs) > 0 {
			c := &cs[len(cs)-1]
			if c.i < len(adj[c.v]) {
				w := adj[c.v][c.i]
				c.i++
				if index[w] == 0 {
					index[w], low[w] = next, next
					next++
					stack = append(stack, w)
					on[w] = true
					cs = append(cs, fr{w, 0})
				} else if on[w] && index[w] < low[c.v] {
					low[c.v] = index[w]
				}
				continue
			}
			u := c.v
			cs = cs[:len(cs)-1]
			if len(cs) > 0 && low[u] < low[cs[len(cs)-1].v] {
				low[cs[len(cs)-1].v] = low[u]
			}
			if low[u] == index[u] {
				var comp []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp = append(comp, w)
					if w == u {
						break
					}
				}
				loop := len(comp) > 1
				for _, w := range adj[u] {
					if w == u {
						loop = true
					}
				}
				if loop {
					e.report(nil, "loop", e.where[u], "a loop can go round without consuming anything (in %s)", e.what[u])
				}
			}
		}
	}
}

// val evaluates an operand.
func (e *Engine) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		if o, ok := e.globals[v]; ok {
			return VPtr{o, ""}
		}
		return VOpaque{"global " + v.String()}
	case *ssa.Function:
		return VFn{v, nil}
	case *ssa.Builtin:
		return VBuiltin(v.Name())
	}
	f := st.top()
	k, ok := f.fi.idx[v]
	if !ok {
		panic("no register for " + v.String())
	}
	if f.regs[k] == nil {
		panic(fmt.Sprintf("register %s of %s is not set", v.Name(), f.fi.fn))
	}
	return f.regs[k]
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.String:
		return strOf(VConstStr(constant.StringVal(c.Value)))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(c.Value); ok {
				return VInt(i)
			}
		}
	}
	return VTop{}
}

func (e *Engine) setReg(st *State, v ssa.Value, x Val) {
	f := st.top()
	f.regs[f.fi.idx[v]] = x
}

// refine replaces the value of the register of an operand.
func (e *Engine) refine(st *State, v ssa.Value, x Val) {
	f := st.top()
	if k, ok := f.fi.idx[v]; ok {
		old := encStr(f.regs[k])
		for i, r := range f.regs {
			if r != nil && encStr(r) == old {
				f.regs[i] = x
			}
		}
	}
}

// emit continues with the outcomes of the instruction v.
func (e *Engine) emit(outs []Out, v ssa.Value) {
	if len(outs) > 1 {
		e.Forks++
	}
	for _, o := range outs {
		if v != nil {
			e.setReg(o.st, v, o.v)
		}
		o.st.top().pc++
		e.work = append(e.work, o.st)
	}
}

// jump moves the top frame to a successor block and evaluates its phis.
func (e *Engine) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	n := firstNonPhi(to)
	if n > 0 {
		vals := make([]Val, n)
		for i := 0; i < n; i++ {
			vals[i] = e.val(st, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < n; i++ {
			f.regs[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	f.block = to
	f.pc = n
}

// visit checks whether the state is new at a merge point.
func (e *Engine) visit(st *State) bool {
	st.kill()
	f := st.top()
	e.gc(st)
	if f.fi.head[f.block.Index] {
		e.widen(st)
		if !e.sem.LoopHead(e, st) {
			return false
		}
		st.kill()
		e.gc(st)
	}
	e.sem.Canon(e, st)
	e.wait(st)
	return false
}

var debugStates = false
var debugForks = os.Getenv("VERIF_FORKS") != ""

// widen gives up on counters that grow without bound.
func (e *Engine) widen(st *State) {
	f := st.top()
	for i := 0; i < firstNonPhi(f.block); i++ {
		k := f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]
		if n, ok := f.regs[k].(VInt); ok && (n > 200 || n < -200) {
			if b, ok := f.block.Instrs[i].(*ssa.Phi).Type().Underlying().(*types.Basic); ok && b.Kind() != types.Int32 {
				f.regs[k] = VTop{}
			}
		}
	}
}

// advance executes a state until it forks, ends or reaches a known state.
func (e *Engine) advance(st *State) {
	if st.pending {
		st.pending = false
		if !e.visit(st) {
			return
		}
	}
	for {
		if len(st.frames) == 0 {
			return
		}
		e.Steps++
		st.steps++
		f := st.top()
		in := f.block.Instrs[f.pc]
		switch in := in.(type) {
		case *ssa.DebugRef:
			f.pc++
		case *ssa.Jump:
			e.jump(st, f.block.Succs[0])
			if f.fi.merge[f.block.Index] && !e.visit(st) {
				return
			}
		case *ssa.If:
			c := e.val(st, in.Cond)
			var next []int
			if b, ok := c.(VBool); ok {
				if b {
					next = []int{0}
				} else {
					next = []int{1}
				}
			} else {
				next = []int{0, 1}
				e.Forks++
				if _, unknown := c.(VTop); unknown {
					st.taint = true
				}
				if debugForks {
					e.report(nil, "FORK", in.Cond.Pos(), "branch on %s", encStr(c))
				}
			}
			blk := f.block
			if len(next) == 2 {
				o := st.clone()
				e.jump(o, blk.Succs[1])
				g := o.top()
				if !g.fi.merge[g.block.Index] || e.visit(o) {
					e.work = append(e.work, o)
				}
			}
			e.jump(st, blk.Succs[next[0]])
			if f.fi.merge[f.block.Index] && !e.visit(st) {
				return
			}
		case *ssa.Return:
			res := make([]Val, len(in.Results))
			for i, r := range in.Results {
				res[i] = e.val(st, r)
			}
			if len(st.frames) == 1 {
				e.Returns++
				e.sem.Finish(e, st, res)
				return
			}
			site := f.site
			st.frames = st.frames[:len(st.frames)-1]
			if site != nil {
				var v Val = VTuple{res}
				if len(res) == 1 {
					v = res[0]
				}
				e.setReg(st, site, v)
			}
			if _, ok := st.top().block.Instrs[st.top().pc].(*ssa.RunDefers); !ok || site != nil {
				st.top().pc++
			}
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			outs, entered := e.call(st, d.call, d.fn, d.args, nil)
			if entered {
				continue
			}
			// the outcomes re-execute RunDefers
			for _, o := range outs {
				e.work = append(e.work, o.st)
			}
			return
		case *ssa.Panic:
			e.report(st, "panic", in.Pos(), "panic is reachable")
			return
		default:
			outs, done := e.exec(st, in)
			if done {
				continue
			}
			v, _ := in.(ssa.Value)
			if len(outs) == 1 && outs[0].st == st {
				if v != nil {
					e.setReg(st, v, outs[0].v)
				}
				st.top().pc++
				continue
			}
			e.emit(outs, v)
			return
		}
	}
}

// loadElem reads through a pointer that may lead into the element of a spread.
func (e *Engine) loadElem(st *State, p VPtr, t types.Type) (Val, bool) {
	path := pathSplit(p.Path)
	v := st.heap[p.Obj]
	for i := 0; i <= len(path); i++ {
		if sp, ok := v.(Spread); ok {
			return e.expand(sp.Element(), path[i:], t)
		}
		if i == len(path) {
			break
		}
		if el, ok := v.(VElem); ok {
			return e.expand(el, path[i:], t)
		}
		n, ok := getPath(v, path[i:i+1])
		if !ok {
			return nil, false
		}
		v = n
	}
	return v, true
}

// expand gives a part of the element of a spread the shape of its type.
func (e *Engine) expand(el Val, path []int, t types.Type) (Val, bool) {
	if _, ok := el.(DomVal); !ok {
		return getPath(el, path)
	}
	if x, ok := e.sem.(interface {
		Expand(el Val, path []int, t types.Type) Val
	}); ok {
		return x.Expand(el, path, t), true
	}
	if len(path) == 0 {
		return el, true
	}
	return VTop{}, true
}

func one(st *State, v Val) []Out { return []Out{{st, v}} }

func (e *Engine) nilDeref(st *State, pos token.Pos, what string) []Out {
	e.report(st, "panic", pos, "nil dereference of %s", what)
	return nil
}

// exec executes a non-control instruction. done means that a function was
// entered or that the program counter has been set already.
func (e *Engine) exec(st *State, in ssa.Instruction) (outs []Out, done bool) {
	f := st.top()
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return one(st, VPtr{st.alloc(zeroVal(t)), ""}), false
	case *ssa.Store:
		p, v := e.val(st, in.Addr), e.val(st, in.Val)
		switch q := p.(type) {
		case VPtr:
			if q.Obj < e.nbase {
				found := false
				for _, o := range st.dirty {
					found = found || o == q.Obj
				}
				if !found {
					st.dirty = append(st.dirty, q.Obj)
				}
			}
			n, ok := setPath(st.heap[q.Obj], pathSplit(q.Path), v)
			if !ok {
				e.undecided(st, in.Pos(), "store through an unknown pointer")
				return nil, false
			}
			st.heap[q.Obj] = n
			return one(st, nil), false
		case VNil:
			return e.nilDeref(st, in.Pos(), in.Addr.Name()), false
		}
		if sts, ok := e.sem.Store(e, st, in, p, v); ok {
			for _, s := range sts {
				outs = append(outs, Out{s, nil})
			}
			return outs, false
		}
		e.undecided(st, in.Pos(), "store through an unknown pointer (%s)", encStr(p))
		return nil, false
	case *ssa.UnOp:
		x := e.val(st, in.X)
		switch in.Op {
		case token.MUL:
			switch q := x.(type) {
			case VPtr:
				v, ok := e.loadElem(st, q, in.Type())
				if !ok {
					e.undecided(st, in.Pos(), "load through an unknown pointer")
					return nil, false
				}
				return one(st, v), false
			case VNil:
				return e.nilDeref(st, in.Pos(), in.X.Name()), false
			}
			if outs, ok := e.sem.Load(e, st, in, x); ok {
				return outs, false
			}
			if o, ok := x.(VOpaque); ok {
				if strings.HasPrefix(o.Name, "element") {
					switch t := in.Type().Underlying().(type) {
					case *types.Slice:
						return one(st, VGone{}), false
					case *types.Basic:
						if t.Info()&types.IsString != 0 {
							return one(st, strOf(VGone{})), false
						}
					}
				}
				return one(st, VTop{}), false
			}
			e.undecided(st, in.Pos(), "load through an unknown pointer (%s)", encStr(x))
			return nil, false
		case token.NOT:
			if b, ok := x.(VBool); ok {
				return one(st, !b), false
			}
			if a, ok := x.(VAny); ok {
				return one(st, a), false
			}
			return one(st, VTop{}), false
		case token.SUB:
			if i, ok := x.(VInt); ok {
				return one(st, -i), false
			}
			return one(st, VTop{}), false
		case token.XOR:
			if i, ok := x.(VInt); ok {
				b := in.Type().Underlying().(*types.Basic)
				if b.Info()&types.IsUnsigned != 0 {
					return one(st, VInt(^int64(i)&0x7fffffffffffffff)), false
				}
				return one(st, ^i), false
			}
			return one(st, VTop{}), false
		}
		e.undecided(st, in.Pos(), "unsupported operation %s", in.Op)
		return nil, false
	case *ssa.BinOp:
		return e.binop(st, in), false
	case *ssa.FieldAddr:
		x := e.val(st, in.X)
		switch q := x.(type) {
		case VPtr:
			return one(st, VPtr{q.Obj, pathAdd(q.Path, in.Field)}), false
		case VNil:
			return e.nilDeref(st, in.Pos(), in.X.Name()), false
		}
		if outs, ok := e.sem.FieldAddr(e, st, in, x); ok {
			return outs, false
		}
		if o, ok := x.(VOpaque); ok {
			return one(st, VOpaque{fmt.Sprintf("%s.%d", o.Name, in.Field)}), false
		}
		e.undecided(st, in.Pos(), "field of an unknown pointer (%s)", encStr(x))
		return nil, false
	case *ssa.Field:
		x := e.val(st, in.X)
		if s, ok := x.(VStruct); ok {
			return one(st, s.F[in.Field]), false
		}
		return one(st, VTop{}), false
	case *ssa.IndexAddr:
		return e.indexAddr(st, in), false
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		if a, ok := x.(VArr); ok {
			if n, ok := i.(VInt); ok && n >= 0 && int(n) < len(a.E) {
				return one(st, a.E[n]), false
			}
		}
		if s, ok := constStr(x); ok {
			if n, ok := i.(VInt); ok {
				if n < 0 || int(n) >= len(s) {
					e.report(st, "panic", in.Pos(), "index out of range")
					return nil, false
				}
				return one(st, VInt(s[n])), false
			}
		}
		if outs, ok := e.sem.Index(e, st, in, x, i); ok {
			return outs, false
		}
		e.undecided(st, in.Pos(), "unsupported index of %s", encStr(x))
		return nil, false
	case *ssa.Slice:
		return e.slice(st, in), false
	case *ssa.MakeInterface:
		return one(st, VIface{in.X.Type(), e.val(st, in.X)}), false
	case *ssa.ChangeInterface:
		return one(st, e.val(st, in.X)), false
	case *ssa.ChangeType:
		return one(st, e.val(st, in.X)), false
	case *ssa.Convert:
		return e.convert(st, in), false
	case *ssa.MakeClosure:
		b := make([]Val, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = e.val(st, x)
		}
		return one(st, VFn{in.Fn.(*ssa.Function), b}), false
	case *ssa.MakeMap:
		return one(st, VMap{st.alloc(VMapC{})}), false
	case *ssa.MapUpdate:
		m := e.val(st, in.Map)
		switch m := m.(type) {
		case VNil:
			e.report(st, "panic", in.Pos(), "assignment to an entry of a nil map")
			return nil, false
		case VMap:
			c, ok := st.heap[m.Obj].(VMapC)
			if !ok {
				return one(st, nil), false // unknown content
			}
			k, v := e.val(st, in.Key), e.val(st, in.Value)
			if _, aff := k.(RAff); !aff && !isConst(k) {
				st.heap[m.Obj] = VTop{}
				return one(st, nil), false
			}
			nk, nv := append([]Val(nil), c.K...), append([]Val(nil), c.V...)
			for i := range nk {
				if sameVal(nk[i], k) {
					nv[i] = v
					st.heap[m.Obj] = VMapC{nk, nv}
					return one(st, nil), false
				}
			}
			st.heap[m.Obj] = VMapC{append(nk, k), append(nv, v)}
			return one(st, nil), false
		}
		return one(st, nil), false
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		if i, ok := n.(VInt); ok && i >= 0 && i < 4096 {
			el := in.Type().Underlying().(*types.Slice).Elem()
			a := make([]Val, i)
			for k := range a {
				a[k] = zeroVal(el)
			}
			return one(st, VSlice{st.alloc(VArr{a}), "", 0, -1}), false
		}
		if _, ok := n.(VLen); ok {
			el := in.Type().Underlying().(*types.Slice).Elem()
			return one(st, VSlice{st.alloc(VArr{[]Val{VZeros{n, zeroVal(el)}}}), "", 0, -1}), false
		}
		if dv, ok := n.(DomVal); ok {
			el := in.Type().Underlying().(*types.Slice).Elem()
			return one(st, VSlice{st.alloc(VArr{[]Val{VZeros{dv, zeroVal(el)}}}), "", 0, -1}), false
		}
		e.undecided(st, in.Pos(), "slice of unknown length")
		return nil, false
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		if u, ok := t.(VTuple); ok {
			return one(st, u.F[in.Index]), false
		}
		return one(st, VTop{}), false
	case *ssa.Lookup:
		return e.lookup(st, in), false
	case *ssa.TypeAssert:
		return e.typeAssert(st, in), false
	case *ssa.Range:
		x := e.val(st, in.X)
		return one(st, VIter{x, 0}), false
	case *ssa.Next:
		return e.next(st, in), false
	case *ssa.Defer:
		fn, args, ok := e.callee(st, &in.Call, in)
		if !ok {
			return nil, false
		}
		f.defers = append(f.defers, Deferred{fn, args, in})
		return one(st, nil), false
	case *ssa.Call:
		fn, args, ok := e.callee(st, &in.Call, in)
		if !ok {
			return nil, false
		}
		outs, entered := e.call(st, in, fn, args, in)
		return outs, entered
	case *ssa.Go:
		e.report(st, "undecided", in.Pos(), "a goroutine is started")
		return nil, false
	}
	e.undecided(st, in.Pos(), "unsupported instruction %T (%s)", in, in)
	return nil, false
}

// VZeros stands for as many zero values as a length.
type VZeros struct{ Len, Zero Val }

// Map implements DomVal.
func (v VZeros) Map(m *Mapper) Val { return VZeros{mapVal(v.Len, m), mapVal(v.Zero, m)} }

// Enc implements DomVal.
func (v VZeros) Enc(b *Enc) { b.WriteByte('Z'); b.val(v.Len); b.val(v.Zero) }

// Element implements Spread.
func (v VZeros) Element() Val { return v.Zero }

func isConst(v Val) bool {
	switch v := v.(type) {
	case VInt, VBool:
		return true
	case VStr:
		_, ok := constStr(v)
		return ok
	case VIface:
		return isConst(v.V)
	case VStruct:
		for _, f := range v.F {
			if !isConst(f) {
				return false
			}
		}
		return true
	}
	return false
}

// items returns the elements of a slice value.
func (e *Engine) items(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		x, ok := getPath(st.heap[s.Obj], pathSplit(s.Path))
		if !ok {
			return nil, false
		}
		a, ok := x.(VArr)
		if !ok {
			return nil, false
		}
		hi := s.Hi
		if hi < 0 {
			hi = len(a.E)
		}
		if s.Lo > hi || hi > len(a.E) {
			return nil, false
		}
		return a.E[s.Lo:hi], true
	}
	return nil, false
}

func hasSpread(vs []Val) int {
	for i, v := range vs {
		if _, ok := v.(Spread); ok {
			return i
		}
	}
	return -1
}

func (e *Engine) newSlice(st *State, items []Val) Val {
	return VSlice{st.alloc(VArr{items}), "", 0, -1}
}

func (e *Engine) lenOf(st *State, v Val) (Val, bool) {
	if r, ok := v.(VRest); ok {
		if r.C.Next {
			return VRestLen{r}, true
		}
		return VAny{1}, true
	}
	if s, ok := constStr(v); ok {
		return VInt(len(s)), true
	}
	if l, ok := e.sem.Len(e, st, v); ok {
		return l, true
	}
	if t, ok := v.(VStr); ok {
		a := VAny{}
		for _, p := range t.P {
			switch p := p.(type) {
			case VConstStr:
				a.Min += len(p)
			case VTop:
				return VTop{}, true
			}
		}
		return a, true
	}
	if its, ok := e.items(st, v); ok {
		if hasSpread(its) < 0 {
			return VInt(len(its)), true
		}
		s := v.(VSlice)
		if s.Hi >= 0 {
			return VTop{}, true
		}
		return VLen{s.Obj, s.Path, s.Lo, 0}, true
	}
	switch m := v.(type) {
	case VMap:
		if c, ok := st.heap[m.Obj].(VMapC); ok {
			return VInt(len(c.K)), true
		}
	case VArr:
		return VInt(len(v.(VArr).E)), true
	case VStr, VTop:
		return VTop{}, true
	}
	return nil, false
}

func (e *Engine) indexAddr(st *State, in *ssa.IndexAddr) []Out {
	x, i := e.val(st, in.X), e.val(st, in.Index)
	switch p := x.(type) {
	case VPtr: // pointer to array
		if n, ok := i.(VInt); ok {
			return one(st, VPtr{p.Obj, pathAdd(p.Path, int(n))})
		}
	case VNil:
		e.report(st, "panic", in.Pos(), "index out of range of a nil slice")
		return nil
	case VRest:
		if n, ok := i.(VInt); ok && n == 0 && !p.C.Next {
			return one(st, VPtr{p.C.Obj, pathAdd(p.C.Path, p.C.K)})
		}
	case VSlice:
		if outs, ok := e.sem.Index(e, st, in, x, i); ok {
			return outs
		}
		its, ok := e.items(st, p)
		if !ok {
			break
		}
		switch n := i.(type) {
		case VInt:
			k := hasSpread(its)
			if n < 0 || (k < 0 && int(n) >= len(its)) {
				e.report(st, "panic", in.Pos(), "index %d out of range (length %d)", n, len(its))
				return nil
			}
			if k < 0 || int(n) < k {
				return one(st, VPtr{p.Obj, pathAdd(p.Path, p.Lo+int(n))})
			}
			if lam, ok := its[k].(VLam); ok && int(n) == k && p.Hi < 0 && !e.iterated(st, p.Obj) {
				if e.single(st, p, k, []Val{VElem{VLastS{lam, true}}, VInit{lam, true}}) {
					return one(st, VPtr{p.Obj, pathAdd(p.Path, p.Lo+k)})
				}
			}
		case VCur:
			if n.Obj == p.Obj && n.Path == p.Path && !n.Next && !n.Past {
				return one(st, VPtr{p.Obj, pathAdd(p.Path, n.K)})
			}
		case VLen:
			if k, ok := e.fromEnd(st, p, n); ok && n.Off > 0 {
				return one(st, VPtr{p.Obj, pathAdd(p.Path, k)})
			}
		}
	}
	if outs, ok := e.sem.Index(e, st, in, x, i); ok {
		return outs
	}
	e.undecided(st, in.Pos(), "index %s of %s is not known to be in range", encStr(i), encStr(x))
	return nil
}

// atLeast is a lower bound of the number of elements.
func atLeast(its []Val) int {
	n := 0
	for _, it := range its {
		if _, ok := it.(Spread); !ok {
			n++
		} else if _, ok := it.(VLam); ok {
			n++
		}
	}
	return n
}

// fromEnd finds the index of the element that is n.Off elements before the end of the list.
func (e *Engine) fromEnd(st *State, p VSlice, n VLen) (int, bool) {
	if n.Obj != p.Obj || n.Path != p.Path || n.Lo != p.Lo || p.Hi >= 0 || n.Off < 0 {
		return 0, false
	}
	its, ok := e.items(st, p)
	if !ok || len(its) < n.Off {
		return 0, false
	}
	k := len(its) - n.Off
	for i := len(its) - 1; i >= k; i-- {
		sp, ok := its[i].(Spread)
		if !ok {
			continue
		}
		if h, ok := e.sem.(interface {
			SplitLast(e *Engine, st *State, p VSlice, i int) bool
		}); ok && i == k && h.SplitLast(e, st, p, i) {
			return p.Lo + i + 1, true
		}
		lam, isLam := sp.(VLam)
		if i != k || !isLam || e.iterated(st, p.Obj) {
			return 0, false
		}
		if !e.single(st, p, i, []Val{VInit{lam, false}, VElem{VLastS{lam, false}}}) {
			return 0, false
		}
		return p.Lo + i + 1, true
	}
	return p.Lo + k, true
}

// single replaces the unknown part at index i by an element and the rest.
func (e *Engine) single(st *State, p VSlice, i int, by []Val) bool {
	v, ok := getPath(st.heap[p.Obj], pathSplit(p.Path))
	if !ok {
		return false
	}
	old := v.(VArr).E
	at := p.Lo + i
	ne := append([]Val(nil), old[:at]...)
	ne = append(ne, by...)
	ne = append(ne, old[at+1:]...)
	h, ok := setPath(st.heap[p.Obj], pathSplit(p.Path), VArr{ne})
	if !ok {
		return false
	}
	st.heap[p.Obj] = h
	return true
}

// iterated tells whether a position in the array is held.
func (e *Engine) iterated(st *State, o int) bool {
	found := false
	var look func(v Val)
	look = func(v Val) {
		switch v := v.(type) {
		case VCur:
			found = found || v.Obj == o
		case VPtr:
			found = found || v.Obj == o && v.Path != ""
		case VSlice:
			found = found || v.Obj == o && (v.Lo != 0 || v.Hi >= 0)
		case VStruct:
			for _, f := range v.F {
				look(f)
			}
		case VArr:
			for _, f := range v.E {
				look(f)
			}
		case VTuple:
			for _, f := range v.F {
				look(f)
			}
		case VIface:
			look(v.V)
		case VFn:
			for _, f := range v.B {
				look(f)
			}
		}
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			look(r)
		}
	}
	for _, h := range st.heap[e.nbase:] {
		look(h)
	}
	return found
}

// rejoin undoes the singling out of last elements.
func rejoin(its []Val) []Val {
	for i := 0; i+1 < len(its); i++ {
		x, y := its[i], its[i+1]
		a, ok1 := x.(VInit)
		b, ok2 := y.(VElem)
		if !ok1 {
			a, ok1 = y.(VInit)
			b, ok2 = x.(VElem)
		}
		if !ok1 || !ok2 {
			continue
		}
		if l, ok := b.Src.(VLastS); ok && l.Of == a.Of && l.First == a.Tail && (y == Val(a)) == a.Tail {
			n := append([]Val(nil), its[:i]...)
			n = append(n, a.Of)
			return rejoin(append(n, its[i+2:]...))
		}
	}
	return its
}

func (e *Engine) slice(st *State, in *ssa.Slice) []Out {
	x := e.val(st, in.X)
	var lo, hi Val = VInt(0), VInt(-1)
	if in.Low != nil {
		lo = e.val(st, in.Low)
	}
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	if s, ok := constStr(x); ok {
		l, ok1 := lo.(VInt)
		h, ok2 := hi.(VInt)
		if ok1 && ok2 {
			if in.High == nil {
				h = VInt(len(s))
			}
			if l < 0 || l > h || int(h) > len(s) {
				e.report(st, "panic", in.Pos(), "slice bounds out of range")
				return nil
			}
			return one(st, strOf(VConstStr(s[l:h])))
		}
	}
	if r, ok := x.(VRest); ok {
		if n, ok := lo.(VInt); ok && in.High == nil && !r.C.Next && n == 1 {
			r.C.Next = true
			return one(st, r)
		}
	}
	if outs, ok := e.sem.Slice(e, st, in, x, lo, hi); ok {
		return outs
	}
	if p, ok := x.(VSlice); ok && p.Hi < 0 {
		// bounds counted from the end
		a, isA := lo.(VLen)
		b, isB := hi.(VLen)
		k1, k2 := p.Lo, -1
		good := isA || isB
		if isB && b.Off > 0 {
			k2, ok = e.fromEnd(st, p, b)
			good = good && ok
		} else if isB {
			good = good && b.Obj == p.Obj && b.Path == p.Path && b.Lo == p.Lo
		} else if in.High != nil {
			good = false
		}
		if isA {
			k1, ok = e.fromEnd(st, p, a)
			good = good && ok
		} else if n, ok := lo.(VInt); !ok || n != 0 {
			good = false
		}
		if good && (k2 < 0 || k1 <= k2) {
			return one(st, VSlice{p.Obj, p.Path, k1, k2})
		}
	}
	l, ok1 := lo.(VInt)
	h, ok2 := hi.(VInt)
	switch p := x.(type) {
	case VPtr: // array
		if a, ok := st.load(p); ok {
			if arr, ok := a.(VArr); ok && ok1 && ok2 {
				n := int(h)
				if in.High == nil {
					n = len(arr.E)
				}
				if l < 0 || int(l) > n || n > len(arr.E) {
					e.report(st, "panic", in.Pos(), "slice bounds out of range")
					return nil
				}
				if n == len(arr.E) {
					n = -1
				}
				return one(st, VSlice{p.Obj, p.Path, int(l), n})
			}
		}
	case VNil:
		if ok1 && ok2 && l == 0 && (in.High == nil || h == 0) {
			return one(st, VNil{})
		}
		if ok1 && ok2 {
			e.report(st, "panic", in.Pos(), "slice bounds out of range of a nil slice")
			return nil
		}
	case VSlice:
		if its, ok := e.items(st, p); ok && ok1 && ok2 {
			k := hasSpread(its)
			n := int(h)
			if in.High == nil {
				n = len(its)
			}
			if in.High == nil && k >= 0 && int(l) <= k {
				return one(st, VSlice{p.Obj, p.Path, p.Lo + int(l), p.Hi})
			}
			if k < 0 || n <= k {
				if l < 0 || int(l) > n || n > len(its) {
					e.report(st, "panic", in.Pos(), "slice bounds out of range")
					return nil
				}
				nh := p.Lo + n
				if in.High == nil {
					nh = p.Hi
				}
				return one(st, VSlice{p.Obj, p.Path, p.Lo + int(l), nh})
			}
		}
	}
	if s, isStr := x.(VStr); isStr {
		// a text cut off at a fixed length
		l, ok1 := lo.(VInt)
		h, ok2 := hi.(VInt)
		if ok1 && ok2 && l == 0 && h >= 8 && len(s.P) > 0 {
			e.undecided(st, in.Pos(), "slice bounds %s:%s of %s are not known to be in range", encStr(lo), encStr(hi), encStr(x))
			return one(st, unknownStr)
		}
	}
	e.undecided(st, in.Pos(), "slice bounds %s:%s of %s are not known to be in range", encStr(lo), encStr(hi), encStr(x))
	return nil
}

func (e *Engine) convert(st *State, in *ssa.Convert) []Out {
	x := e.val(st, in.X)
	if outs, ok := e.sem.Convert(e, st, in, x); ok {
		return outs
	}
	to := in.Type().Underlying()
	if b, ok := to.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			switch i := x.(type) {
			case VInt:
				return one(st, truncInt(int64(i), b))
			}
			return one(st, x)
		case b.Info()&types.IsString != 0:
			if i, ok := x.(VInt); ok {
				return one(st, strOf(VConstStr(string(rune(i)))))
			}
			if s, ok := x.(VStr); ok {
				return one(st, s)
			}
			if its, ok := e.items(st, x); ok {
				var rs []rune
				good := true
				for _, it := range its {
					r, ok := it.(VInt)
					good = good && ok
					rs = append(rs, rune(r))
				}
				if good {
					return one(st, strOf(VConstStr(string(rs))))
				}
			}
			return one(st, strOf(VTop{}))
		}
	}
	if sl, ok := to.(*types.Slice); ok {
		if s, ok := constStr(x); ok {
			var its []Val
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				for _, r := range s {
					its = append(its, VInt(r))
				}
			} else {
				for i := 0; i < len(s); i++ {
					its = append(its, VInt(s[i]))
				}
			}
			return one(st, e.newSlice(st, its))
		}
	}
	return one(st, VTop{})
}

func truncInt(i int64, b *types.Basic) VInt {
	switch b.Kind() {
	case types.Int8:
		return VInt(int8(i))
	case types.Int16:
		return VInt(int16(i))
	case types.Int32:
		return VInt(int32(i))
	case types.Uint8:
		return VInt(uint8(i))
	case types.Uint16:
		return VInt(uint16(i))
	case types.Uint32:
		return VInt(uint32(i))
	}
	return VInt(i)
}

func (e *Engine) lookup(st *State, in *ssa.Lookup) []Out {
	x, k := e.val(st, in.X), e.val(st, in.Index)
	if _, isStr := in.X.Type().Underlying().(*types.Basic); isStr {
		if s, ok := constStr(x); ok {
			if n, ok := k.(VInt); ok {
				if n < 0 || int(n) >= len(s) {
					e.report(st, "panic", in.Pos(), "index out of range")
					return nil
				}
				return one(st, VInt(s[n]))
			}
		}
		if outs, ok := e.sem.Index(e, st, in, x, k); ok {
			return outs
		}
		e.undecided(st, in.Pos(), "index %s of string %s is not known to be in range", encStr(k), encStr(x))
		return nil
	}
	mt := in.X.Type().Underlying().(*types.Map)
	zero := zeroVal(mt.Elem())
	ret := func(st *State, v Val, found bool) Out {
		if in.CommaOk {
			return Out{st, VTuple{[]Val{v, VBool(found)}}}
		}
		return Out{st, v}
	}
	switch m := x.(type) {
	case VNil:
		return []Out{ret(st, zero, false)}
	case VMap:
		c, ok := st.heap[m.Obj].(VMapC)
		if !ok {
			if in.CommaOk {
				return one(st, VTuple{[]Val{VTop{}, VTop{}}})
			}
			return one(st, VTop{})
		}
		if isConst(k) {
			for i := range c.K {
				if sameVal(c.K[i], k) {
					return []Out{ret(st, c.V[i], true)}
				}
			}
			return []Out{ret(st, zero, false)}
		}
		if outs, ok := e.sem.Lookup(e, st, in, c, k); ok {
			for i := range outs {
				if outs[i].v == nil {
					outs[i] = ret(outs[i].st, zero, false)
				} else {
					outs[i] = ret(outs[i].st, outs[i].v, true)
				}
			}
			return outs
		}
	}
	if in.CommaOk {
		return one(st, VTuple{[]Val{VTop{}, VTop{}}})
	}
	return one(st, VTop{})
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) []Out {
	x := e.val(st, in.X)
	fail := func(st *State) []Out {
		if in.CommaOk {
			return one(st, VTuple{[]Val{zeroVal(in.AssertedType), VBool(false)}})
		}
		e.report(st, "panic", in.Pos(), "type assertion to %s can fail", in.AssertedType)
		return nil
	}
	switch v := x.(type) {
	case VNil:
		return fail(st)
	case VIface:
		var ok bool
		var r Val
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.T, it)
			r = v
		} else {
			ok = types.Identical(v.T, in.AssertedType)
			r = v.V
		}
		if !ok {
			return fail(st)
		}
		if in.CommaOk {
			return one(st, VTuple{[]Val{r, VBool(true)}})
		}
		return one(st, r)
	}
	if outs, ok := e.sem.TypeAssert(e, st, in, x); ok {
		return outs
	}
	e.undecided(st, in.Pos(), "type assertion on an unknown value (%s)", encStr(x))
	return nil
}

func (e *Engine) next(st *State, in *ssa.Next) []Out {
	it, ok := e.val(st, in.Iter).(VIter)
	if !ok {
		e.undecided(st, in.Pos(), "unknown iterator")
		return nil
	}
	done := func() []Out {
		tt := in.Type().(*types.Tuple)
		return one(st, VTuple{[]Val{VBool(false), zeroTop(tt.At(1).Type()), zeroTop(tt.At(2).Type())}})
	}
	if s, ok := constStr(it.Of); ok && in.IsString {
		if it.I >= len(s) {
			return done()
		}
		for i, r := range s[it.I:] {
			_ = i
			e.refine(st, in.Iter, VIter{it.Of, it.I + len(string(r))})
			return one(st, VTuple{[]Val{VBool(true), VInt(it.I), VInt(r)}})
		}
	}
	if m, ok := it.Of.(VMap); ok {
		if c, ok := st.heap[m.Obj].(VMapC); ok {
			// the order of the iteration is not defined; the keys are tried in the order of insertion
			if it.I >= len(c.K) {
				return done()
			}
			e.refine(st, in.Iter, VIter{it.Of, it.I + 1})
			return one(st, VTuple{[]Val{VBool(true), c.K[it.I], c.V[it.I]}})
		}
	}
	if _, ok := it.Of.(VNil); ok {
		return done()
	}
	if outs, ok := e.sem.Index(e, st, in, it, VInt(it.I)); ok {
		return outs
	}
	e.undecided(st, in.Pos(), "iteration over an unknown value (%s)", encStr(it.Of))
	return nil
}

func zeroTop(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VTop{}
	}
	return zeroVal(t)
}

// callee resolves the function of a call.
func (e *Engine) callee(st *State, c *ssa.CallCommon, site ssa.CallInstruction) (Val, []Val, bool) {
	args := make([]Val, 0, len(c.Args)+1)
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if !c.IsInvoke() {
		return e.val(st, c.Value), args, true
	}
	recv := e.val(st, c.Value)
	switch r := recv.(type) {
	case VNil:
		e.report(st, "panic", site.Pos(), "method %s is called on a nil interface", c.Method.Name())
		return nil, nil, false
	case VIface:
		_, isDom := r.V.(DomVal)
		_, isOpaque := r.V.(VOpaque)
		if !isDom && !isOpaque {
			fn := e.prog.prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				return VFn{fn, nil}, append([]Val{r.V}, args...), true
			}
		}
	}
	return VInvoke{recv, c.Method}, args, true
}

// VInvoke is a method value of an unknown receiver.
type VInvoke struct {
	Recv Val
	M    *types.Func
}

// Map implements DomVal.
func (v VInvoke) Map(m *Mapper) Val { return VInvoke{mapVal(v.Recv, m), v.M} }

// Enc implements DomVal.
func (v VInvoke) Enc(b *Enc) { b.WriteString("V" + v.M.FullName()); b.val(v.Recv) }

// call performs a call. entered means that a frame has been pushed.
func (e *Engine) call(st *State, site ssa.CallInstruction, fnv Val, args []Val, result ssa.Value) ([]Out, bool) {
	switch f := fnv.(type) {
	case VBuiltin:
		return e.builtin(st, site, string(f), args), false
	case VInvoke:
		if outs, ok := e.sem.Invoke(e, st, site, f.Recv, f.M, args); ok {
			return outs, false
		}
		if outs, ok := e.model(st, site, f.M.FullName(), nil, append([]Val{f.Recv}, args...)); ok {
			return outs, false
		}
		e.undecided(st, site.Pos(), "call of %s on an unknown receiver", f.M.FullName())
		return nil, false
	case VNil:
		e.report(st, "panic", site.Pos(), "call of a nil function")
		return nil, false
	case VFn:
		if outs, ok := e.sem.Call(e, st, site, f.Fn, args); ok {
			return outs, false
		}
		if len(f.Fn.Blocks) > 0 && (e.prog.inRepoFn(f.Fn) || f.Fn.Synthetic != "") {
			if e.prog.isInit(f.Fn) && !e.prog.inRepo(f.Fn.Pkg) {
				return one(st, VTuple{}), false
			}
			if e.prog.isInit(f.Fn) && len(st.frames) > 0 {
				return one(st, VTuple{}), false // initialised in dependency order
			}
			if len(st.frames) > 48 {
				e.report(st, "depth", site.Pos(), "the call depth is not bounded (recursion through %s)", f.Fn)
				return nil, false
			}
			e.push(st, f.Fn, args, f.B, result)
			return nil, true
		}
		if outs, ok := e.model(st, site, f.Fn.RelString(nil), f.Fn, args); ok {
			return outs, false
		}
		if e.prog.isInit(f.Fn) {
			return one(st, VTuple{}), false
		}
		e.undecided(st, site.Pos(), "call of %s, which has no model", f.Fn.RelString(nil))
		return nil, false
	}
	e.undecided(st, site.Pos(), "call of an unknown function (%s)", encStr(fnv))
	return nil, false
}

func (e *Engine) builtin(st *State, site ssa.CallInstruction, name string, args []Val) []Out {
	switch name {
	case "len":
		if l, ok := e.lenOf(st, args[0]); ok {
			return one(st, l)
		}
		if freeList(e, site.Common().Args[0].Type(), args[0]) {
			return one(st, VAny{})
		}
		return one(st, VTop{})
	case "cap":
		return one(st, VTop{})
	case "append":
		if outs, ok := e.sem.Append(e, st, site, args[0], args[1]); ok {
			return outs
		}
		x, ok1 := e.items(st, args[0])
		y, ok2 := e.items(st, args[1])
		if s, ok := constStr(args[1]); ok && !ok2 {
			for i := 0; i < len(s); i++ {
				y = append(y, VInt(s[i]))
			}
			ok2 = true
		}
		if ok1 && ok2 {
			if len(y) == 0 {
				return one(st, args[0])
			}
			return one(st, e.newSlice(st, append(append([]Val(nil), x...), y...)))
		}
	case "copy":
		if outs, ok := e.sem.Call(e, st, site, nil, args); ok {
			return outs
		}
		d, ok1 := e.items(st, args[0])
		s, ok2 := e.items(st, args[1])
		if ok1 && ok2 {
			if len(d) == 1 {
				if z, ok := d[0].(VZeros); ok {
					if l, ok := e.lenOf(st, args[1]); ok && sameVal(l, z.Len) {
						ds := args[0].(VSlice)
						if ds.Path == "" && ds.Lo == 0 && ds.Hi == -1 {
							st.heap[ds.Obj] = VArr{append([]Val(nil), s...)}
							return one(st, l)
						}
					}
				}
			}
			if hasSpread(d) < 0 && hasSpread(s) < 0 {
				n := len(d)
				if len(s) < n {
					n = len(s)
				}
				if n > 0 {
					ds := args[0].(VSlice)
					for i := 0; i < n; i++ {
						nv, ok := setPath(st.heap[ds.Obj], append(pathSplit(ds.Path), ds.Lo+i), s[i])
						if !ok {
							return nil
						}
						st.heap[ds.Obj] = nv
					}
				}
				return one(st, VInt(n))
			}
		}
	case "delete":
		if m, ok := args[0].(VMap); ok {
			st.heap[m.Obj] = VTop{}
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "min", "max":
		x, ok1 := args[0].(VInt)
		y, ok2 := args[len(args)-1].(VInt)
		if ok1 && ok2 && len(args) == 2 {
			if (x < y) == (name == "min") {
				return one(st, x)
			}
			return one(st, y)
		}
		return one(st, VTop{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			return e.nilDeref(st, site.Pos(), "the receiver of a method")
		}
		return one(st, args[0])
	}
	e.undecided(st, site.Pos(), "unsupported call of %s(%s)", name, encStr(VTuple{args}))
	return nil
}

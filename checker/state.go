package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Dom is the part of a state that belongs to an analysis domain.
type Dom interface {
	Clone() Dom
	// Vals visits the values held in the domain state and rewrites them.
	Vals(f func(Val) Val)
	// Enc writes a canonical encoding.
	Enc(b *Enc)
}

// Frame is an activation record.
type Frame struct {
	fi     *FnInfo
	block  *ssa.BasicBlock
	pc     int
	regs   []Val
	defers []Deferred
	// site is the call in the parent frame that receives the results, nil for deferred calls.
	site ssa.Value
}

// Deferred is a deferred call.
type Deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}

// Trace is the reversed list of what happened on the path.
type Trace struct {
	prev *Trace
	pos  token.Pos
	note string
	item *Item
}

// State is a state of the abstract interpreter.
type State struct {
	frames []*Frame
	heap   []Val
	dom    Dom
	trace  *Trace
	dirty  []int // base objects that have been written
	node   int
	prog   int
	steps  int
	// pending is set when the state has still to be checked at a merge point.
	pending bool
	// taint is set behind a branch that nothing is known about.
	taint bool
}

func (st *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(st.frames)),
		heap:   append(make([]Val, 0, len(st.heap)+4), st.heap...),
		trace:  st.trace,
		dirty:  append([]int(nil), st.dirty...),
		node:   st.node,
		prog:   st.prog,
		steps:  st.steps,
		taint:  st.taint,
	}
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Val(nil), f.regs...)
		g.defers = append([]Deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	if st.dom != nil {
		n.dom = st.dom.Clone()
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) alloc(v Val) int {
	st.heap = append(st.heap, v)
	return len(st.heap) - 1
}

func (st *State) note(pos token.Pos, format string, args ...interface{}) {
	st.trace = &Trace{st.trace, pos, fmt.Sprintf(format, args...), nil}
}

// load reads through a pointer.
func (st *State) load(p VPtr) (Val, bool) {
	return getPath(st.heap[p.Obj], pathSplit(p.Path))
}

// FnInfo holds per-function tables.
type FnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	merge []bool
	head  []bool
	live  map[[2]int][]bool
	outs  [][]bool // live-out per block
	ord   []int
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, live: map[[2]int][]bool{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	fi.merge = make([]bool, nb)
	fi.head = make([]bool, nb)
	for _, b := range fn.Blocks {
		fi.merge[b.Index] = len(b.Preds) > 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.head[s.Index] = true
				fi.merge[s.Index] = true
			}
		}
	}
	// Liveness: live-in of a block is taken after its phis.
	fi.outs = make([][]bool, nb)
	for i := range fi.outs {
		fi.outs[i] = make([]bool, fi.n)
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := fi.outs[i]
			for _, s := range b.Succs {
				in := fi.liveAt(s, firstNonPhi(s), true)
				for k, l := range in {
					if l && !out[k] {
						// A phi defined in s is not live out of b through s itself.
						if v := fi.phiAt(s, k); v {
							continue
						}
						out[k] = true
						changed = true
					}
				}
				for _, instr := range s.Instrs {
					phi, ok := instr.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if k, ok := fi.idx[phi.Edges[pi]]; ok && !out[k] {
								out[k] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	return fi
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (fi *FnInfo) phiAt(b *ssa.BasicBlock, k int) bool {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if fi.idx[phi] == k {
			return true
		}
	}
	return false
}

// liveAt returns the registers live before instruction pc of block b.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, pc int, fresh bool) []bool {
	key := [2]int{b.Index, pc}
	if !fresh {
		if l, ok := fi.live[key]; ok {
			return l
		}
	}
	l := append([]bool(nil), fi.outs[b.Index]...)
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			l[fi.idx[v]] = false
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o == nil {
				continue
			}
			if k, ok := fi.idx[*o]; ok {
				l[k] = true
			}
		}
	}
	if !fresh {
		fi.live[key] = l
	}
	return l
}

// mapAll renames identities everywhere in the state.
func (st *State) mapAll(m *Mapper) {
	for _, f := range st.frames {
		for k, v := range f.regs {
			if v != nil {
				f.regs[k] = mapVal(v, m)
			}
		}
		for k, d := range f.defers {
			f.defers[k] = Deferred{mapVal(d.fn, m), mapVals(d.args, m), d.call}
		}
	}
	if st.dom != nil {
		st.dom.Vals(func(v Val) Val { return mapVal(v, m) })
	}
}

// kill drops the dead registers.
func (st *State) kill() {
	for i, f := range st.frames {
		pc := f.pc
		if _, ok := f.block.Instrs[pc].(*ssa.Call); ok && i < len(st.frames)-1 {
			pc++ // the arguments of the call in progress have been passed
		}
		l := f.fi.liveAt(f.block, pc, false)
		for k := range f.regs {
			if !l[k] {
				f.regs[k] = nil
			}
		}
	}
}

// gc drops unreachable objects and renumbers the rest in a canonical order.
func (e *Engine) gc(st *State) {
	newID := map[int]int{}
	var order []int
	m := &Mapper{Obj: func(o int) int {
		if o < e.nbase {
			return o
		}
		if id, ok := newID[o]; ok {
			return id
		}
		id := e.nbase + len(order)
		newID[o] = id
		order = append(order, o)
		return id
	}}
	st.mapAll(m)
	heap := make([]Val, e.nbase, e.nbase+len(order)+8)
	copy(heap, st.heap)
	for _, o := range st.dirty {
		heap[o] = mapVal(st.heap[o], m)
	}
	for i := 0; i < len(order); i++ {
		heap = append(heap, mapVal(st.heap[order[i]], m))
	}
	st.heap = heap
}

// mapHeap renames items and lambdas in all objects.
func (e *Engine) mapHeap(st *State, m *Mapper) {
	for _, o := range st.dirty {
		st.heap[o] = mapVal(st.heap[o], m)
	}
	for o := e.nbase; o < len(st.heap); o++ {
		st.heap[o] = mapVal(st.heap[o], m)
	}
}

// key is the canonical encoding of a collected state.
func (e *Engine) key(st *State) string {
	b := Enc{buf: make([]byte, 0, 1024)}
	b.bools(st.taint)
	for _, f := range st.frames {
		b.WriteString(fnKey(f.fi.fn))
		b.ints(f.block.Index, f.pc)
		for k, v := range f.regs {
			if v != nil {
				b.ints(k)
				b.val(v)
			}
		}
		for _, d := range f.defers {
			b.WriteByte('D')
			b.val(d.fn)
			b.vals(d.args)
		}
		b.WriteByte('\n')
	}
	for _, o := range st.dirty {
		b.ints(o)
		b.val(st.heap[o])
	}
	for i := e.nbase; i < len(st.heap); i++ {
		b.WriteByte('H')
		b.val(st.heap[i])
	}
	if j, ok := st.dom.(Joinable); ok {
		j.EncMasked(&b)
	} else if st.dom != nil {
		st.dom.Enc(&b)
	}
	return b.String()
}

package main

import (
	"container/heap"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// States that have reached the same program point and differ in the set of
// values of a single component only are joined: the join of two such states
// stands for exactly the union of what they stand for. So that joining is
// effective, states wait at merge points until no state is left that comes
// earlier in the program.

// Joinable is a domain state with components that are sets.
type Joinable interface {
	// Vec returns the sets.
	Vec() []CSet
	// SetVec replaces them.
	SetVec(v []CSet)
	// EncMasked encodes everything else.
	EncMasked(b *Enc)
}

type group struct {
	key  string
	rank []int
	sts  []*State
	vecs [][]CSet
	seq  int
}

type groupHeap []*group

func (h groupHeap) Len() int { return len(h) }
func (h groupHeap) Less(i, j int) bool {
	a, b := h[i].rank, h[j].rank
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return h[i].seq < h[j].seq
}
func (h groupHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *groupHeap) Push(x interface{}) { *h = append(*h, x.(*group)) }
func (h *groupHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type seenVec struct {
	vec []CSet
	id  int
}

// wait puts a state at a merge point aside.
func (e *Engine) wait(st *State) {
	key := e.key(st)
	var vec []CSet
	if j, ok := st.dom.(Joinable); ok {
		vec = j.Vec()
	}
	for _, s := range e.seen[key] {
		if subVec(vec, s.vec) {
			e.edge(st, s.id)
			return
		}
	}
	g := e.groups[key]
	if g == nil {
		g = &group{key: key, rank: e.rank(st), seq: e.seq}
		e.seq++
		e.groups[key] = g
		heap.Push(&e.heap, g)
	}
	g.sts = append(g.sts, st)
	g.vecs = append(g.vecs, vec)
}

func (e *Engine) edge(st *State, id int) {
	ed := [2]int{st.node, id}
	old, ok := e.edges[ed]
	e.edges[ed] = (!ok || old) && st.prog > 0
}

// release takes the earliest group and continues with its states.
func (e *Engine) release() {
	g := heap.Pop(&e.heap).(*group)
	delete(e.groups, g.key)
	// the members of a joined state
	type member struct {
		vec []CSet
		sts []*State
	}
	var ms []*member
	for i, st := range g.sts {
		ms = append(ms, &member{g.vecs[i], []*State{st}})
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(ms); i++ {
			for j := i + 1; j < len(ms); j++ {
				if v, ok := joinVec(ms[i].vec, ms[j].vec); ok {
					ms[i].vec = v
					ms[i].sts = append(ms[i].sts, ms[j].sts...)
					ms = append(ms[:j], ms[j+1:]...)
					j--
					changed = true
				}
			}
		}
	}
	for _, m := range ms {
		id := -1
		for _, s := range e.seen[g.key] {
			if subVec(m.vec, s.vec) {
				id = s.id
				break
			}
		}
		st := m.sts[0]
		isNew := id < 0
		if isNew {
			id = e.newNode(st)
			e.States++
			e.seen[g.key] = append(e.seen[g.key], seenVec{m.vec, id})
			if e.profile != nil {
				e.profile(st)
			}
		}
		for _, x := range m.sts {
			e.edge(x, id)
		}
		if !isNew {
			continue
		}
		if j, ok := st.dom.(Joinable); ok && len(m.sts) > 1 {
			j.SetVec(m.vec)
		}
		st.node = id
		st.prog = 0
		e.work = append(e.work, st)
	}
}

func subVec(a, b []CSet) bool {
	for i := range a {
		if !a[i].subset(b[i]) {
			return false
		}
	}
	return true
}

// joinVec joins two vectors when that is exact.
func joinVec(a, b []CSet) ([]CSet, bool) {
	if subVec(a, b) {
		return b, true
	}
	if subVec(b, a) {
		return a, true
	}
	diff := -1
	for i := range a {
		if a[i] != b[i] {
			if diff >= 0 {
				return nil, false
			}
			diff = i
		}
	}
	r := append([]CSet(nil), a...)
	r[diff] = r[diff].or(b[diff])
	return r, true
}

// rank orders program points.
func (e *Engine) rank(st *State) []int {
	var r []int
	if e.breadth {
		r = append(r, st.steps/200)
	}
	for _, f := range st.frames {
		r = append(r, f.fi.order()[f.block.Index], f.pc)
	}
	return r
}

// order ranks the blocks of a function: a loop head comes after the body of
// its loop, so that the states of all iterations meet there.
func (fi *FnInfo) order() []int {
	if fi.ord != nil {
		return fi.ord
	}
	n := len(fi.fn.Blocks)
	rpo := make([]int, n)
	seen := make([]bool, n)
	k := n
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for _, s := range b.Succs {
			walk(s)
		}
		k--
		rpo[b.Index] = k
	}
	walk(fi.fn.Blocks[0])
	// depth-first ranking of the loop forest
	body := map[int]map[int]bool{}
	for _, b := range fi.fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			m := body[s.Index]
			if m == nil {
				m = map[int]bool{s.Index: true}
				body[s.Index] = m
			}
			todo := []*ssa.BasicBlock{b}
			for len(todo) > 0 {
				x := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if m[x.Index] {
					continue
				}
				m[x.Index] = true
				todo = append(todo, x.Preds...)
			}
		}
	}
	type rk struct {
		main  int // place of the innermost enclosing structure
		depth int
		b     int
	}
	// emit blocks recursively
	ord := make([]int, n)
	next := 0
	var emit func(blocks []int, head int)
	emit = func(blocks []int, head int) {
		in := map[int]bool{}
		for _, b := range blocks {
			in[b] = true
		}
		done := map[int]bool{}
		sort.Slice(blocks, func(i, j int) bool { return rpo[blocks[i]] < rpo[blocks[j]] })
		for _, b := range blocks {
			if done[b] || b == head {
				continue
			}
			if m, ok := body[b]; ok {
				var sub []int
				for x := range m {
					if in[x] && !done[x] {
						sub = append(sub, x)
						done[x] = true
					}
				}
				emit(sub, b)
				continue
			}
			ord[b] = next
			next++
			done[b] = true
		}
		if head >= 0 {
			ord[head] = next
			next++
		}
	}
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	emit(all, -1)
	fi.ord = ord
	return ord
}

// frameNames describes the functions a state is in.
func frameNames(st *State) string {
	var names []string
	for _, f := range st.frames {
		names = append(names, f.fi.fn.Name())
	}
	return strings.Join(names, " > ")
}

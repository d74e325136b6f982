package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// At the head of a loop the specification is moved over the items the parser
// can no longer take back, what code and specification agree on is folded, and
// the items nothing refers to are dropped.

const (
	maxSpecStr  = 10
	maxSpecList = 6
	maxCodeList = 8
	maxItems    = 48
)

// walkAll visits every value of the state with a mapper that records.
func (e *Engine) walkAll(st *State, m *Mapper) {
	vs := func(v Val) { mapVal(v, m) }
	for _, f := range st.frames {
		for _, v := range f.regs {
			if v != nil {
				vs(v)
			}
		}
		for _, d := range f.defers {
			vs(d.fn)
			for _, a := range d.args {
				vs(a)
			}
		}
	}
	if st.dom != nil {
		st.dom.Vals(func(v Val) Val { vs(v); return v })
	}
	for _, o := range st.dirty {
		vs(st.heap[o])
	}
	for o := e.nbase; o < len(st.heap); o++ {
		vs(st.heap[o])
	}
}

// rewrite maps every value of the state.
func (e *Engine) rewrite(st *State, m *Mapper) {
	st.mapAll(m)
	e.mapHeap(st, m)
}

// limit is the first item the parser can still take back.
func (s *TokSem) limit(e *Engine, st *State) int {
	d := tokDom(st)
	lim := d.cur
	if d.rawOK && d.rawLo != d.rawHi && d.rawLo < lim {
		lim = d.rawLo
	}
	e.walkAll(st, &Mapper{Bound: func(b int) int {
		if b < lim {
			lim = b
		}
		return b
	}})
	return lim
}

// LoopHead implements Sem.
func (s *TokSem) LoopHead(e *Engine, st *State) bool {
	d := tokDom(st)
	if d.ntFail != "" || d.corrupt {
		return true
	}
	lim := s.limit(e, st)
	for d.specPos < lim {
		it := d.items[d.specPos]
		if sts := s.stepOne(e, st); sts != nil {
			for _, x := range sts {
				x.pending = true
				e.work = append(e.work, x)
			}
			return false
		}
		if it.kind != 'L' || !it.cls.subset(s.lx.set("EOF", "READERR")) {
			st.prog++
		}
	}
	s.texts(e, st)
	s.nameTexts(e, st, lim)
	s.foldCursor(e, st)
	if d.dead {
		s.forget(e, st)
	} else {
		s.foldStrings(e, st)
		s.foldLists(e, st)
		s.foldParts(e, st)
		s.caps(e, st)
	}
	e.gc(st)
	s.dropItems(e, st)
	s.blur(e, st)
	if len(d.items) > maxItems {
		e.undecided(st, e.pos(st), "too much of the source is held back")
		return false
	}
	return true
}

// texts replaces texts that are known.
func (s *TokSem) texts(e *Engine, st *State) {
	d := tokDom(st)
	e.rewrite(st, &Mapper{Str: func(v VStr) VStr { return s.normStr(d, v) }})
}

// nameTexts names the texts of the items that have been committed: which
// lexemes they can be does not matter any more.
func (s *TokSem) nameTexts(e *Engine, st *State, lim int) {
	d := tokDom(st)
	ids := map[int]VSig{}
	e.rewrite(st, &Mapper{Str: func(v VStr) VStr {
		hit := false
		for _, p := range v.P {
			if t, ok := p.(VTxt); ok && t.Item < lim && t.Item < d.specPos && !t.Part && d.items[t.Item].kind == 'L' {
				hit = true
			}
		}
		if !hit {
			return v
		}
		ps := append([]Val(nil), v.P...)
		for i, p := range ps {
			if t, ok := p.(VTxt); ok && t.Item < lim && t.Item < d.specPos && !t.Part && d.items[t.Item].kind == 'L' {
				if _, ok := ids[t.Item]; !ok {
					ids[t.Item] = VSig{d.nlam}
					d.nlam++
				}
				ps[i] = ids[t.Item]
			}
		}
		return VStr{ps}
	}})
}

// symbols of a string: its constant pieces are taken apart.
func symbols(v VStr) []Val {
	var r []Val
	for _, p := range v.P {
		if c, ok := p.(VConstStr); ok {
			for i := 0; i < len(c); i++ {
				r = append(r, string(c[i:i+1]))
			}
			continue
		}
		r = append(r, p)
	}
	return r
}

func symKeys(vs []Val) []string {
	r := make([]string, len(vs))
	for i, v := range vs {
		if c, ok := v.(string); ok {
			r[i] = c
			continue
		}
		r[i] = " " + encStr(v)
	}
	return r
}

// foldStrings names the texts that code and specification have both put together.
func (s *TokSem) foldStrings(e *Engine, st *State) {
	d := tokDom(st)
	for round := 0; round < 20; round++ {
		var spec, code [][]string
		var specV [][]Val
		collect := func(out *[][]string, vals *[][]Val) *Mapper {
			seen := map[string]bool{}
			return &Mapper{Str: func(v VStr) VStr {
				if len(v.P) >= 2 {
					k := encStr(v)
					if !seen[k] {
						seen[k] = true
						sy := symbols(v)
						*out = append(*out, symKeys(sy))
						if vals != nil {
							*vals = append(*vals, sy)
						}
					}
				}
				return v
			}}
		}
		m := collect(&spec, &specV)
		for _, c := range d.cfgs {
			for _, f := range c.regs {
				mapVal(f.V, m)
			}
		}
		if len(spec) == 0 {
			return
		}
		cm := collect(&code, nil)
		for _, f := range st.frames {
			for _, v := range f.regs {
				if v != nil {
					mapVal(v, cm)
				}
			}
		}
		for o := e.nbase; o < len(st.heap); o++ {
			mapVal(st.heap[o], cm)
		}
		var best []Val
		for i, sp := range spec {
			for _, cd := range code {
				lo, n := commonRun(sp, cd, specV[i])
				if n > len(best) {
					best = specV[i][lo : lo+n]
				}
			}
		}
		if len(best) < 2 {
			return
		}
		s.Folds++
		sig := VSig{d.nlam}
		d.nlam++
		key := symKeys(best)
		e.rewrite(st, &Mapper{Str: func(v VStr) VStr {
			sy := symbols(v)
			ks := symKeys(sy)
			var out []Val
			hit := false
			for i := 0; i < len(sy); {
				if i+len(key) <= len(ks) && eqStrs(ks[i:i+len(key)], key) {
					out = append(out, sig)
					i += len(key)
					hit = true
					continue
				}
				out = append(out, sy[i])
				i++
			}
			if !hit {
				return v
			}
			// characters become constants again
			ps := make([]Val, len(out))
			for i, x := range out {
				if c, ok := x.(string); ok {
					ps[i] = VConstStr(c)
				} else {
					ps[i] = x
				}
			}
			return strOf(ps...)
		}})
	}
}

func eqStrs(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// commonRun finds the longest common run of symbols that has a piece that is not constant.
func commonRun(a, b []string, av []Val) (int, int) {
	bestLo, bestN := 0, 0
	for i := range a {
		for j := range b {
			n := 0
			dom := false
			for i+n < len(a) && j+n < len(b) && a[i+n] == b[j+n] {
				if _, ok := av[i+n].(string); !ok {
					if _, top := av[i+n].(VTop); top {
						break
					}
					dom = true
				}
				n++
			}
			if dom && n > bestN {
				bestLo, bestN = i, n
			}
		}
	}
	return bestLo, bestN
}

type listRef struct {
	ci   int
	name string
	list []Val
}

func (d *TokDom) lists() []listRef {
	var r []listRef
	for i, c := range d.cfgs {
		for _, f := range c.regs {
			if a, ok := f.V.(VArr); ok && len(a.E) > 0 {
				r = append(r, listRef{i, f.Name, a.E})
			}
		}
	}
	return r
}

func onlyLam(l []Val) bool {
	if len(l) != 1 {
		return false
	}
	_, ok := l[0].(VLam)
	return ok
}

// foldLists names the beginnings of lists that code and specification agree on.
func (s *TokSem) foldLists(e *Engine, st *State) {
	d := tokDom(st)
	for round := 0; round < 20; round++ {
		if round > 0 {
			e.gc(st)
		}
		refs := d.lists()
		if len(refs) == 0 {
			return
		}
		free := e.wholeArrays(st)
		for _, o := range free {
			if a := st.heap[o].(VArr).E; len(a) > 1 {
				st.heap[o] = VArr{rejoin(a)}
			}
		}
		bestO, bestN, bestR := -1, 0, -1
		for _, o := range free {
			arr := st.heap[o].(VArr).E
			max := e.private(st, o, arr)
			if !st.lengths(o, false) {
				continue
			}
			for ri, r := range refs {
				n := s.agree(e, st, r, arr, max)
				if n == 0 || (n == 1 && onlyLam(arr[:1])) {
					continue
				}
				if n > bestN {
					bestO, bestN, bestR = o, n, ri
				}
			}
		}
		if bestO < 0 {
			return
		}
		s.Folds++
		lam := VLam{d.nlam}
		d.nlam++
		arr := st.heap[bestO].(VArr).E
		best := refs[bestR]
		var seen = map[string]bool{}
		for _, r := range refs {
			if r.name != best.name || len(r.list) < bestN {
				continue
			}
			same := true
			for i := 0; i < bestN && same; i++ {
				same = sameVal(r.list[i], best.list[i])
			}
			if !same && s.agree(e, st, r, arr, bestN) < bestN {
				continue
			}
			seen[fmt.Sprint(r.ci)] = true
			c := &d.cfgs[r.ci]
			c.regs = setField(c.regs, r.name, VArr{append([]Val{lam}, r.list[bestN:]...)})
		}
		st.lengths(bestO, true)
		// the same list held elsewhere
		old := append([]Val(nil), arr[:bestN]...)
		st.heap[bestO] = VArr{append([]Val{lam}, arr[bestN:]...)}
		for _, o := range free {
			a := st.heap[o].(VArr).E
			if o == bestO || len(a) < bestN {
				continue
			}
			same := true
			for i := 0; i < bestN && same; i++ {
				same = sameVal(a[i], old[i])
			}
			if same && st.lengths(o, true) {
				st.heap[o] = VArr{append([]Val{lam}, a[bestN:]...)}
			}
		}
		d.cfgs = s.dedup(d.cfgs)
	}
}

// agree counts the leading elements that code and specification agree on and can no longer change.
func (s *TokSem) agree(e *Engine, st *State, r listRef, arr []Val, max int) int {
	d := tokDom(st)
	n := 0
	for n < len(arr) && n < len(r.list) && n < max {
		if n == len(r.list)-1 && s.unsettled(d, d.cfgs[r.ci].node) {
			break
		}
		if _, ok := r.list[n].(VLam); ok {
			if !sameVal(r.list[n], unwrap(arr[n])) {
				break
			}
			n++
			continue
		}
		m := &matcher{s: s, e: e, st: st}
		m.match(r.list[n], arr[n], "", "")
		if len(m.out) > 0 {
			break
		}
		n++
	}
	return n
}

// unsettled tells whether the last element can still get an inline comment.
func (s *TokSem) unsettled(d *TokDom, q int) bool {
	if !s.needsNL(s.nfa, q, map[int]bool{}) {
		return false
	}
	if d.specPos >= len(d.items) {
		return true
	}
	it := &d.items[d.specPos]
	if it.kind == 'C' {
		return it.nl != 2
	}
	return it.gap
}

// wholeArrays are the arrays that are only referred to by slices of the whole array.
func (e *Engine) wholeArrays(st *State) []int {
	bad := map[int]bool{}
	good := map[int]bool{}
	see := func(v Val) { e.slices(v, good, bad) }
	for _, f := range st.frames {
		for _, v := range f.regs {
			if v != nil {
				see(v)
			}
		}
		for _, d := range f.defers {
			see(d.fn)
			for _, a := range d.args {
				see(a)
			}
		}
	}
	for _, o := range st.dirty {
		see(st.heap[o])
	}
	for o := e.nbase; o < len(st.heap); o++ {
		see(st.heap[o])
	}
	var r []int
	for o := range good {
		if _, ok := st.heap[o].(VArr); ok && !bad[o] && o >= e.nbase {
			r = append(r, o)
		}
	}
	sort.Ints(r)
	return r
}

// slices records the arrays a value refers to.
func (e *Engine) slices(v Val, good, bad map[int]bool) {
	switch x := v.(type) {
	case VSlice:
		if x.Path == "" && x.Lo == 0 && x.Hi == -1 {
			good[x.Obj] = true
		} else {
			bad[x.Obj] = true
		}
	case VPtr:
		if x.Path != "" {
			bad[x.Obj] = true
		}
	case VStruct:
		for _, f := range x.F {
			e.slices(f, good, bad)
		}
	case VArr:
		for _, f := range x.E {
			e.slices(f, good, bad)
		}
	case VTuple:
		for _, f := range x.F {
			e.slices(f, good, bad)
		}
	case VIface:
		e.slices(x.V, good, bad)
	case VFn:
		for _, f := range x.B {
			e.slices(f, good, bad)
		}
	case nil, VInt, VBool, VNil, VTop, VOpaque, VStr, VConstStr, VBuiltin:
	default:
		m := &Mapper{Obj: func(o int) int { bad[o] = true; return o }}
		mapVal(v, m)
	}
}

// objRefs counts the references to objects in a value.
func objRefs(v Val, f func(o int)) {
	mapVal(v, &Mapper{Obj: func(o int) int { f(o); return o }})
}

// private counts the leading elements whose objects nothing else refers to.
func (e *Engine) private(st *State, o int, arr []Val) int {
	total := map[int]int{}
	e.walkAll(st, &Mapper{Obj: func(x int) int { total[x]++; return x }})
	for n := 0; n < len(arr); n++ {
		inner := map[int]int{}
		var todo []int
		add := func(x int) {
			if x < e.nbase {
				return
			}
			if inner[x] == 0 {
				todo = append(todo, x)
			}
			inner[x]++
		}
		objRefs(arr[n], add)
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			objRefs(st.heap[x], add)
		}
		for x, k := range inner {
			if total[x] != k {
				return n
			}
		}
	}
	return len(arr)
}

// caps gives up on what does not fold.
func (s *TokSem) caps(e *Engine, st *State) {
	d := tokDom(st)
	big := false
	for i := range d.cfgs {
		c := &d.cfgs[i]
		for _, f := range c.regs {
			switch v := f.V.(type) {
			case VArr:
				if len(v.E) > maxSpecList {
					c.regs = setField(c.regs, f.Name, VLost{"any"})
					s.undec(e, st, "the list of "+f.Name+" is not built like the expected one")
				}
			case VStr:
				if len(symbols(v)) > maxSpecStr+20 {
					c.regs = setField(c.regs, f.Name, VLost{"any"})
					s.undec(e, st, "the text of "+f.Name+" is not built like the expected one")
				}
			}
		}
	}
	for o := e.nbase; o < len(st.heap); o++ {
		if a, ok := st.heap[o].(VArr); ok && len(a.E) > maxCodeList {
			big = true
		}
	}
	if big {
		for _, o := range e.wholeArrays(st) {
			if a := st.heap[o].(VArr); len(a.E) > maxCodeList {
				s.undec(e, st, "a list grows that the specification does not know")
				st.heap[o] = VArr{[]Val{VLam{-1}}}
			}
		}
	}
	e.rewrite(st, &Mapper{Str: func(v VStr) VStr {
		if len(v.P) > maxSpecStr {
			return unknownStr
		}
		return v
	}})
}

// undec notes that a list or text is not built as expected: a precise result can
// hardly be hoped for any more, and the exploration is cut short in favour of the
// shallow one.
func (s *TokSem) undec(e *Engine, st *State, msg string) {
	e.undecided(st, e.pos(st), "%s", msg)
	if e.diverged == 0 {
		e.diverged = len(e.where) + 40000
	}
}

// forget drops what cannot matter any more when the source is not a sentence.
func (s *TokSem) forget(e *Engine, st *State) {
	d := tokDom(st)
	d.cfgs = nil
	for _, o := range e.wholeArrays(st) {
		if a := st.heap[o].(VArr); len(a.E) > 0 && !onlyLam(a.E) {
			st.heap[o] = VArr{[]Val{VLam{-1}}}
		}
	}
	e.rewrite(st, &Mapper{Str: func(v VStr) VStr {
		if len(v.P) > 1 {
			return unknownStr
		}
		if len(v.P) == 1 {
			switch v.P[0].(type) {
			case VSig, VNTText:
				return unknownStr
			}
		}
		return v
	}, Lam: func(int) int { return -1 }})
}

// dropItems forgets the items that nothing refers to.
func (s *TokSem) dropItems(e *Engine, st *State) {
	d := tokDom(st)
	keep := make([]bool, len(d.items))
	e.walkAll(st, &Mapper{Item: func(i int) int {
		if i >= 0 && i < len(keep) {
			keep[i] = true
		}
		return i
	}})
	lim := d.specPos
	if d.cur-1 < lim {
		lim = d.cur - 1
	}
	if d.rawOK && d.rawLo < lim {
		lim = d.rawLo
	}
	ids := make([]int, len(d.items)+1)
	n := 0
	var items []Item
	cut := false
	for i := range d.items {
		if i < lim && !keep[i] {
			ids[i] = -1
			cut = true
			continue
		}
		ids[i] = n
		it := d.items[i]
		it.cut = it.cut || cut
		cut = false
		items = append(items, it)
		n++
	}
	if n == len(d.items) {
		return
	}
	ids[len(d.items)] = n
	bound := func(b int) int {
		for b < len(ids) && ids[b] < 0 {
			b++
		}
		return ids[b]
	}
	e.rewrite(st, &Mapper{Item: func(i int) int {
		if i < 0 || i >= len(ids) {
			return i
		}
		return ids[i]
	}, Bound: bound})
	d.items = items
	d.cur = bound(d.cur)
	d.rawLo = bound(d.rawLo)
	d.rawHi = bound(d.rawHi)
	d.specPos = bound(d.specPos)
}

// blur forgets what cannot matter any more about the items that have been committed.
func (s *TokSem) blur(e *Engine, st *State) {
	d := tokDom(st)
	text := make([]bool, len(d.items))
	e.walkAll(st, &Mapper{Text: func(i int) {
		if i >= 0 && i < len(text) {
			text[i] = true
		}
	}})
	end := s.lx.set("EOF", "READERR")
	for i := range d.items {
		it := &d.items[i]
		if i >= d.specPos {
			break
		}
		it.nl = 0
		it.gap = false
		if text[i] || (d.rawOK && i >= d.rawLo && d.rawLo != d.rawHi) {
			continue
		}
		switch it.kind {
		case 'N':
			it.nt = "element"
			it.cls = CSet{}
		case 'L':
			switch {
			case !it.cls.and(end).empty(), it.part && i == d.cur-1:
			case s.oneChar(d, i):
				it.cls = s.lx.set(";")
				it.part, it.errd = false, false
			default:
				it.cls = s.lx.set("IDENT")
				it.part, it.errd = false, false
			}
		}
	}
}

// Canon implements Sem.
func (s *TokSem) Canon(e *Engine, st *State) {
	d := tokDom(st)
	s.relax(e, st)
	ids := map[int]int{}
	e.rewriteOrdered(st, &Mapper{Lam: func(i int) int {
		if i < 0 {
			return i
		}
		if n, ok := ids[i]; ok {
			return n
		}
		ids[i] = len(ids)
		return len(ids) - 1
	}})
	d.nlam = len(ids)
}

// relax forgets how an item was read that has been put back: it is read anew.
func (s *TokSem) relax(e *Engine, st *State) {
	d := tokDom(st)
	if d.ntFail != "" || d.corrupt {
		return
	}
	i := len(d.items) - 1
	if i < d.cur || i < d.specPos || d.items[i].kind != 'L' {
		return
	}
	used := false
	e.walkAll(st, &Mapper{Item: func(k int) int {
		if k == i {
			used = true
		}
		return k
	}, Bound: func(b int) int {
		if b > i {
			used = true
		}
		return b
	}})
	if used {
		return
	}
	it := &d.items[i]
	it.part, it.errd, it.known = false, false, false
}

// rewriteOrdered maps all values in the order they are encoded.
func (e *Engine) rewriteOrdered(st *State, m *Mapper) { e.rewrite(st, m) }

// foldCursor names the images of the visited elements of a spread.
func (s *TokSem) foldCursor(e *Engine, st *State) {
	f := st.top()
	for i := 0; i < firstNonPhi(f.block); i++ {
		k := f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]
		c, ok := cursorOf(f.regs[k])
		if !ok {
			continue
		}
		x, ok := getPath(st.heap[c.Obj], pathSplit(c.Path))
		if !ok {
			continue
		}
		src, ok := x.(VArr)
		if !ok || c.K >= len(src.E) {
			continue
		}
		sp, ok := src.E[c.K].(Spread)
		if !ok {
			continue
		}
		s.foldPart(e, st, sp, c.First)
	}
}

func (s *TokSem) foldPart(e *Engine, st *State, sp Spread, first bool) {
	spKey := encStr(sp.(Val))
	elKey := encStr(sp.Element())
	for _, o := range e.wholeArrays(st) {
		a := st.heap[o].(VArr).E
		if len(a) == 0 {
			continue
		}
		last := a[len(a)-1]
		tmpl := e.template(st, last, 0)
		_, isPart := last.(VPart)
		fresh := !isPart && mentions(tmpl, elKey)
		part := -1
		for i, it := range a {
			if p, ok := it.(VPart); ok && encStr(p.Src) == spKey {
				part = i
			}
		}
		n := append([]Val(nil), a...)
		switch {
		case fresh && first && part < 0:
			n[len(n)-1] = VPart{sp.(Val), tmpl}
		case fresh && !first && part == len(a)-2 && sameVal(a[part].(VPart).Tmpl, tmpl):
			n = n[:len(n)-1]
		case fresh:
			n[len(n)-1] = VTop{}
			if part >= 0 {
				n = append(n[:part], VLam{-1})
			}
		case part >= 0 && !first && part == len(a)-1:
			// the element has been passed over
			n[part] = VLam{-1}
		default:
			continue
		}
		st.heap[o] = VArr{n}
	}
}

// template is a value with the fresh objects it points to.
func (e *Engine) template(st *State, v Val, depth int) Val {
	switch x := v.(type) {
	case VIface:
		return VIface{x.T, e.template(st, x.V, depth)}
	case VPtr:
		if x.Obj < e.nbase || x.Path != "" || depth > 3 {
			return v
		}
		return VTPtr{e.template(st, st.heap[x.Obj], depth+1)}
	case VStruct:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = e.template(st, x.F[i], depth)
		}
		return VStruct{f}
	}
	return v
}

// mentions tells whether a value holds (a part of) an element.
func mentions(v Val, elKey string) bool {
	switch x := v.(type) {
	case VElem:
		return encStr(x) == elKey
	case VElemF:
		return encStr(x.Elem) == elKey
	case VIface:
		return mentions(x.V, elKey)
	case VTPtr:
		return mentions(x.V, elKey)
	case VStruct:
		for _, f := range x.F {
			if mentions(f, elKey) {
				return true
			}
		}
	case VStr:
		for _, f := range x.P {
			if mentions(f, elKey) {
				return true
			}
		}
	}
	return false
}

// lengths looks for the known lengths of a list that the frames hold. They
// are made symbolic when set; that is possible unless an iteration is under way.
func (st *State) lengths(o int, set bool) bool {
	for _, f := range st.frames {
		fresh := false
		for i := 0; i < firstNonPhi(f.block); i++ {
			if f.regs[f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]] == Val(VInt(-1)) {
				fresh = true
			}
		}
		for v, k := range f.fi.idx {
			c, ok := v.(*ssa.Call)
			if !ok {
				continue
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				continue
			}
			a, ok := f.fi.idx[c.Call.Args[0]]
			if !ok {
				continue
			}
			if _, known := f.regs[k].(VInt); !known || f.regs[a] != Val(VSlice{o, "", 0, -1}) {
				continue
			}
			if !fresh {
				return false
			}
			if set {
				f.regs[k] = VLen{o, "", 0, 0}
			}
		}
	}
	return true
}

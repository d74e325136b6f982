package main

import (
	"fmt"
	"sort"
	"strings"
)

// stepOne moves the specification over one character. It returns the states
// the character leads to when there are several.
func (s *RuneSem) stepOne(st *State, input rune) []*State {
	d := runeDom(st)
	if input != 0 {
		s.apply(st, s.rc.step(d.q, d.mode, input), true)
		return nil
	}
	var steps []rstep
	var sets []CSet
	idx := map[rstep]int{}
	for c := range s.rc.cls {
		if !d.segs[d.pos].cls.has(c) {
			continue
		}
		r := s.rc.step(d.q, d.mode, s.rc.cls[c].lo)
		i, ok := idx[r]
		if !ok {
			i = len(steps)
			idx[r] = i
			steps = append(steps, r)
			sets = append(sets, CSet{})
		}
		sets[i] = sets[i].with(c)
	}
	if len(steps) == 1 {
		s.apply(st, steps[0], false)
		return nil
	}
	var outs []*State
	for i := range steps {
		t := st
		if i < len(steps)-1 {
			t = st.clone()
		}
		runeDom(t).segs[d.pos].cls = sets[i]
		outs = append(outs, t)
	}
	for i, t := range outs {
		s.apply(t, steps[i], false)
	}
	return outs
}

func (s *RuneSem) apply(st *State, r rstep, virtual bool) {
	d := runeDom(st)
	end := d.pos
	if r.take {
		end++
	}
	if r.begin {
		d.start = d.pos
	}
	done := strings.HasPrefix(r.q, "=")
	if r.com {
		d.coms = append(d.coms, RCom{d.start, end})
		d.nl = done && !r.take
	}
	d.q = r.q
	if done {
		d.fin = end
		return
	}
	if r.q == "START" {
		d.start = -1
	}
	if !virtual {
		d.pos++
	}
}

func (d *RuneDom) done() bool { return strings.HasPrefix(d.q, "=") }

// LoopHead implements Sem.
func (s *RuneSem) LoopHead(e *Engine, st *State) bool {
	d := runeDom(st)
	p, ok := s.curPos(st).(RPos)
	if d.on && ok {
		for d.pos < p.B && !d.done() {
			if sts := s.stepOne(st, 0); sts != nil {
				for _, x := range sts {
					x.pending = true
					e.work = append(e.work, x)
				}
				return false
			}
		}
	}
	if d.on && ok && d.done() && p.B > d.fin+8 {
		e.report(st, s.lexCat(d), e.pos(st), "the scan of %s goes on far behind it", s.showSpan(d, d.start, d.fin))
		return false
	}
	if ok && p.B > d.seen {
		st.prog++
		d.seen = p.B
	}
	if m := s.foldComments(e, st); m != "" {
		c := "C19"
		if strings.Contains(m, "position") {
			c = "C21"
		}
		e.report(st, c, e.pos(st), "a recorded comment %s", m)
		return false
	}
	s.merge(e, st)
	if d.n() > 40 {
		e.undecided(st, e.pos(st), "too much of the source is held back")
		return false
	}
	for o := e.nbase; o < len(st.heap); o++ {
		if a, ok := st.heap[o].(VArr); ok && len(a.E) > 40 {
			for _, x := range a.E {
				switch x.(type) {
				case RCh, RSpan, RRev, RRest, RCRest:
					e.undecided(st, e.pos(st), "a list of characters or comments grows without bound")
					return false
				}
			}
		}
	}
	return true
}

// commentIs compares a scanned comment with one of the specification.
func (s *RuneSem) commentIs(d *RuneDom, v Val, c RCom) string {
	t, ok := v.(VStruct)
	if !ok || len(t.F) != 2 {
		return "is not known"
	}
	for _, f := range t.F {
		switch x := f.(type) {
		case VStr:
			n := s.norm(d, x)
			if len(n.P) != 1 || n.P[0] != Val(RSpan{c.Lo, c.Hi}) {
				return fmt.Sprintf("has the text %s instead of %s", s.showVal(d, n), s.showSpan(d, c.Lo, c.Hi))
			}
		case VStruct:
			if p := s.posOf(x); p != Val(RPos{c.Lo, 'S'}) {
				return fmt.Sprintf("has the wrong position")
			}
		default:
			return "is not known"
		}
	}
	return ""
}

// foldComments drops the comments that the scanner and the specification agree on.
func (s *RuneSem) foldComments(e *Engine, st *State) string {
	d := runeDom(st)
	if !d.on {
		return ""
	}
	v, ok := s.field(st, "comments")
	if !ok {
		return ""
	}
	sl, ok := v.(VSlice)
	if !ok || sl.Lo != 0 || sl.Hi >= 0 || sl.Path != "" || e.iterated(st, sl.Obj) {
		return ""
	}
	arr, ok := st.heap[sl.Obj].(VArr)
	if !ok {
		return ""
	}
	for len(d.coms) > 0 && len(arr.E) > 1 {
		if _, ok := arr.E[0].(RCRest); !ok {
			return ""
		}
		if m := s.commentIs(d, arr.E[1], d.coms[0]); m != "" {
			if m == "is not known" {
				m = ""
			}
			return m
		}
		arr = VArr{append([]Val{arr.E[0]}, arr.E[2:]...)}
		d.coms = append([]RCom(nil), d.coms[1:]...)
		st.heap[sl.Obj] = arr
	}
	return ""
}

// merge joins the pieces of the source that nothing tells apart any more.
func (s *RuneSem) merge(e *Engine, st *State) {
	d := runeDom(st)
	var fs []RFact
	for _, f := range d.facts {
		if f.Lo == d.start {
			fs = append(fs, f)
		}
	}
	d.facts = fs
	e.rewrite(st, &Mapper{Str: func(v VStr) VStr { return s.norm(d, v) }})
	for o := e.nbase; o < len(st.heap); o++ {
		arr, ok := st.heap[o].(VArr)
		if !ok || !runeList(arr.E) {
			continue
		}
		if k, ok := s.cursorAt(st, o); ok {
			if k >= len(arr.E) {
				continue
			}
			a := normRunes(d, arr.E[:k], false)
			b := normRunes(d, arr.E[k+1:], false)
			n := append(append(append([]Val(nil), a...), arr.E[k]), b...)
			if len(a) != k {
				s.moveCursor(st, o, len(a))
			}
			st.heap[o] = VArr{n}
			continue
		}
		if e.iterated(st, o) {
			continue
		}
		st.heap[o] = VArr{normRunes(d, arr.E, false)}
	}
	e.gc(st)
	kept := map[int]bool{0: true, d.n(): true}
	head := 0
	if d.on && d.start >= 0 {
		max := 1
		if d.q == "LINE" || d.q == "BLOCK" || d.q == "BSTAR" {
			max = 2
		}
		for head < max && d.start+head < d.n() && d.segs[d.start+head].one {
			head++
		}
	}
	text := map[int]bool{}
	e.walkAll(st, &Mapper{Bound: func(b int) int { kept[b] = true; return b }, Text: func(b int) { text[b] = true }})
	if d.on {
		// the first letter tells which word it can be, the first two what a comment begins with
		for i := 0; i < head; i++ {
			kept[d.start+i+1] = true
		}
		for i := d.pos; i <= d.n(); i++ {
			kept[i] = true
		}
	}
	var ks []int
	for k := range kept {
		if k >= 0 && k <= d.n() {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	idx := map[int]int{}
	var segs []RSeg
	for j, k := range ks {
		idx[k] = j
		if j == 0 {
			continue
		}
		from := ks[j-1]
		g := d.segs[from]
		if k-from > 1 {
			g = RSeg{}
			for i := from; i < k; i++ {
				if d.segs[i].min > 0 || d.segs[i].one {
					g.min = 1
				}
			}
		} else if g.one && !text[from] && (!d.on || from < d.pos && (from < d.start || from >= d.start+head)) {
			g.cls = s.rc.all
		}
		if !g.one {
			g.cls = CSet{}
		}
		segs = append(segs, g)
	}
	if len(segs) == len(d.segs) {
		d.segs = segs
		return
	}
	e.rewrite(st, &Mapper{Bound: func(b int) int {
		if j, ok := idx[b]; ok {
			return j
		}
		return b
	}})
	d.segs = segs
}

func runeList(vs []Val) bool {
	for _, v := range vs {
		switch v.(type) {
		case RCh, RSpan, RRev:
			return true
		}
	}
	return false
}

// cursorAt finds the one position of an iteration over an array.
func (s *RuneSem) cursorAt(st *State, o int) (int, bool) {
	k, n := -1, 0
	for _, f := range st.frames {
		for _, r := range f.regs {
			if c, ok := cursorOf(r); ok && c.Obj == o {
				if k >= 0 && c.K != k {
					return 0, false
				}
				k = c.K
				n++
			}
		}
	}
	return k, n > 0
}

func (s *RuneSem) moveCursor(st *State, o, k int) {
	for _, f := range st.frames {
		for i, r := range f.regs {
			if c, ok := r.(VCur); ok && c.Obj == o {
				c.K = k
				f.regs[i] = c
			}
		}
	}
}

// Finish implements Sem.
func (s *RuneSem) Finish(e *Engine, st *State, results []Val) {
	if s.check != nil {
		s.check(e, st, results)
	}
}

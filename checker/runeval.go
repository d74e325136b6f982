package main

import (
	"fmt"
	"strings"
)

// Values of the rune domain: the source is a sequence of segments between
// boundaries; see RuneDom.

type (
	// RCh is the character behind a boundary.
	RCh struct{ B int }
	// RFun is such a character combined with a constant.
	RFun struct {
		B  int
		Op string
		N  int64
	}
	// RSpan is the text between two boundaries.
	RSpan struct{ Lo, Hi int }
	// RRev is the same text backwards.
	RRev struct{ Lo, Hi int }
	// RRest is the unknown text that has been put back earlier, backwards.
	RRest struct{}
	// RCRest is the unknown list of the comments scanned earlier.
	RCRest struct{}
	// RPos is a number of the position at a boundary: F is O, L or C.
	RPos struct {
		B int
		F byte
	}
	// RBad is a number of a position that has been moved by the wrong character.
	RBad struct{}
)

// Map implements DomVal.
func (v RCh) Map(m *Mapper) Val {
	b := m.bound(v.B)
	if m.Bound != nil {
		m.bound(v.B + 1)
		if m.Text != nil {
			m.Text(v.B)
		}
	}
	return RCh{b}
}

// Enc implements DomVal.
func (v RCh) Enc(b *Enc) { b.WriteString("rc"); b.ints(v.B) }

// Map implements DomVal.
func (v RFun) Map(m *Mapper) Val { return RFun{RCh{v.B}.Map(m).(RCh).B, v.Op, v.N} }

// Enc implements DomVal.
func (v RFun) Enc(b *Enc) { b.WriteString("rf" + v.Op); b.ints(v.B, int(v.N)) }

// Map implements DomVal.
func (v RSpan) Map(m *Mapper) Val { return RSpan{m.bound(v.Lo), m.bound(v.Hi)} }

// Enc implements DomVal.
func (v RSpan) Enc(b *Enc) { b.WriteString("rs"); b.ints(v.Lo, v.Hi) }

// Element implements Spread.
func (v RSpan) Element() Val { return VTop{} }

// Map implements DomVal.
func (v RRev) Map(m *Mapper) Val { return RRev{m.bound(v.Lo), m.bound(v.Hi)} }

// Enc implements DomVal.
func (v RRev) Enc(b *Enc) { b.WriteString("rr"); b.ints(v.Lo, v.Hi) }

// Element implements Spread.
func (v RRev) Element() Val { return VTop{} }

// Map implements DomVal.
func (v RRest) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v RRest) Enc(b *Enc) { b.WriteString("rR") }

// Element implements Spread.
func (v RRest) Element() Val { return VTop{} }

// Map implements DomVal.
func (v RCRest) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v RCRest) Enc(b *Enc) { b.WriteString("rC") }

// Element implements Spread.
func (v RCRest) Element() Val { return VTop{} }

// Map implements DomVal.
func (v RPos) Map(m *Mapper) Val { return RPos{m.bound(v.B), v.F} }

// Enc implements DomVal.
func (v RPos) Enc(b *Enc) { b.WriteString("rp" + string([]byte{v.F})); b.ints(v.B) }

// Map implements DomVal.
func (v RBad) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v RBad) Enc(b *Enc) { b.WriteString("rB") }

// RWidth is the number of bytes of the character behind a boundary.
type RWidth struct{ B int }

// Map implements DomVal.
func (v RWidth) Map(m *Mapper) Val { return RWidth{RCh{v.B}.Map(m).(RCh).B} }

// Enc implements DomVal.
func (v RWidth) Enc(b *Enc) { b.WriteString("rw"); b.ints(v.B) }

// RAff is a number of the position an analysis begins with, plus a constant:
// Sym is O, L or C, or M and a line for a column remembered for that line.
type RAff struct {
	Sym string
	N   int
}

// Map implements DomVal.
func (v RAff) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v RAff) Enc(b *Enc) { b.WriteString("ra" + v.Sym + ";"); b.ints(v.N) }

// RSeg is a part of the source.
type RSeg struct {
	one bool // exactly one character
	min int  // 1 if it is not empty
	cls CSet // what the character can be
}

// RCom is a comment of the specification.
type RCom struct{ Lo, Hi int }

// RFact tells which words a text can be.
type RFact struct {
	Lo, Hi int
	set    CSet
}

// RuneDom is the state of the rune domain.
type RuneDom struct {
	segs     []RSeg
	end      byte // what follows the segments: 0 not read yet, E the end, X a failure of the reader
	restGone bool // nothing put back earlier is left
	// the specification
	on    bool
	mode  int64
	pos   int // the specification has read the characters up to here
	q     string
	start int // beginning of the token or comment
	fin   int // end of the token
	nl    bool
	coms  []RCom
	facts []RFact
	seen  int // the furthest position at the last loop head
	scn   Val
}

// Clone implements Dom.
func (d *RuneDom) Clone() Dom {
	n := *d
	n.segs = append(make([]RSeg, 0, len(d.segs)+2), d.segs...)
	n.coms = append([]RCom(nil), d.coms...)
	n.facts = append([]RFact(nil), d.facts...)
	return &n
}

// Vals implements Dom.
func (d *RuneDom) Vals(f func(Val) Val) {
	b := func(p *int) {
		if *p >= 0 {
			*p = f(RPos{*p, 'S'}).(RPos).B
		}
	}
	b(&d.pos)
	b(&d.start)
	b(&d.fin)
	b(&d.seen)
	for i := range d.coms {
		b(&d.coms[i].Lo)
		b(&d.coms[i].Hi)
	}
	for i := range d.facts {
		b(&d.facts[i].Lo)
		b(&d.facts[i].Hi)
	}
	if d.scn != nil {
		d.scn = f(d.scn)
	}
}

// Enc implements Dom.
func (d *RuneDom) Enc(b *Enc) {
	for _, s := range d.segs {
		b.bools(s.one)
		b.ints(s.min)
		for _, w := range s.cls {
			b.ints(int(w))
		}
	}
	b.WriteByte(d.end + 'a')
	b.bools(d.restGone, d.on, d.nl)
	b.ints(d.pos, d.start, d.fin, d.seen)
	b.WriteString(d.q)
	for _, c := range d.coms {
		b.ints(c.Lo, c.Hi)
	}
	for _, c := range d.facts {
		b.ints(c.Lo, c.Hi)
		for _, w := range c.set {
			b.ints(int(w))
		}
	}
}

func runeDom(st *State) *RuneDom { return st.dom.(*RuneDom) }

func (d *RuneDom) n() int { return len(d.segs) }

// fact returns the words the text between two boundaries can be.
func (d *RuneDom) fact(lo, hi int, all CSet) CSet {
	for _, f := range d.facts {
		if f.Lo == lo && f.Hi == hi {
			return f.set
		}
	}
	return all
}

func (d *RuneDom) setFact(lo, hi int, set CSet) {
	for i, f := range d.facts {
		if f.Lo == lo && f.Hi == hi {
			d.facts[i].set = set
			return
		}
	}
	d.facts = append(d.facts, RFact{lo, hi, set})
}

// normRunes joins adjacent pieces of source text in a list.
func normRunes(d *RuneDom, vs []Val, str bool) []Val {
	var out []Val
	for _, v := range vs {
		if s, ok := v.(RSpan); ok && s.Lo == s.Hi {
			continue
		}
		if s, ok := v.(RRev); ok && s.Lo == s.Hi {
			continue
		}
		if c, ok := v.(RCh); ok && str {
			v = RSpan{c.B, c.B + 1}
		}
		if len(out) > 0 {
			if j, ok := joinRunes(out[len(out)-1], v); ok {
				out[len(out)-1] = j
				continue
			}
		}
		out = append(out, v)
	}
	if !str {
		for i, v := range out {
			switch s := v.(type) {
			case RSpan:
				if s.Hi == s.Lo+1 && d.segs[s.Lo].one {
					out[i] = RCh{s.Lo}
				}
			case RRev:
				if s.Hi == s.Lo+1 && d.segs[s.Lo].one {
					out[i] = RCh{s.Lo}
				}
			}
		}
	}
	return out
}

func joinRunes(a, b Val) (Val, bool) {
	switch x := a.(type) {
	case RCh:
		switch y := b.(type) {
		case RCh:
			if y.B == x.B+1 {
				return RSpan{x.B, x.B + 2}, true
			}
			if y.B == x.B-1 {
				return RRev{y.B, y.B + 2}, true
			}
		case RSpan:
			if y.Lo == x.B+1 {
				return RSpan{x.B, y.Hi}, true
			}
		case RRev:
			if y.Hi == x.B {
				return RRev{y.Lo, x.B + 1}, true
			}
		}
	case RSpan:
		switch y := b.(type) {
		case RCh:
			if y.B == x.Hi {
				return RSpan{x.Lo, y.B + 1}, true
			}
		case RSpan:
			if y.Lo == x.Hi {
				return RSpan{x.Lo, y.Hi}, true
			}
		}
	case RRev:
		switch y := b.(type) {
		case RCh:
			if y.B+1 == x.Lo {
				return RRev{y.B, x.Hi}, true
			}
		case RRev:
			if y.Hi == x.Lo {
				return RRev{y.Lo, x.Hi}, true
			}
		}
	}
	return nil, false
}

// insert splits a segment in two.
func (s *RuneSem) insert(e *Engine, st *State, i int, a, b RSeg) {
	e.rewrite(st, &Mapper{Bound: func(x int) int {
		if x > i {
			return x + 1
		}
		return x
	}})
	d := runeDom(st)
	d.segs = append(d.segs, RSeg{})
	copy(d.segs[i+1:], d.segs[i:])
	d.segs[i], d.segs[i+1] = a, b
}

// remove drops an empty segment.
func (s *RuneSem) remove(e *Engine, st *State, i int) {
	d := runeDom(st)
	d.segs = append(d.segs[:i:i], d.segs[i+1:]...)
	e.rewrite(st, &Mapper{Bound: func(x int) int {
		if x > i {
			return x - 1
		}
		return x
	}})
}

func (s *RuneSem) showVal(d *RuneDom, v Val) string {
	switch x := v.(type) {
	case RCh:
		return "the character at " + fmt.Sprint(x.B)
	case RSpan:
		return s.showSpan(d, x.Lo, x.Hi)
	case VStr:
		if len(x.P) == 0 {
			return `""`
		}
		var r []string
		for _, p := range x.P {
			r = append(r, s.showVal(d, p))
		}
		return strings.Join(r, " followed by ")
	case RRev:
		return "the reverse of " + s.showSpan(d, x.Lo, x.Hi)
	case RRest:
		return "what was put back before"
	case RCRest:
		return "the earlier comments"
	case VConstStr:
		return fmt.Sprintf("%q", string(x))
	case VTop:
		return "something unknown"
	}
	return encStr(v)
}

func (s *RuneSem) showSpan(d *RuneDom, lo, hi int) string {
	var r []string
	for i := lo; i < hi && i < len(d.segs); i++ {
		if d.segs[i].one && d.segs[i].cls != s.rc.all {
			r = append(r, s.rc.describe(d.segs[i].cls))
		} else if d.segs[i].one {
			r = append(r, "a character")
		} else {
			r = append(r, "some text")
		}
	}
	return fmt.Sprintf("the text [%s] at %d", strings.Join(r, " "), lo)
}

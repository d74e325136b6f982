package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// RuneSem interprets the scanner over an unknown source.
type RuneSem struct {
	BaseSem
	p       *Program
	rc      *RuneClasses
	scnType *types.Named
	posType *types.Named
	numPath map[byte]string // paths of O, L and C in a position
	fld     map[string]int  // fields of the scanner: pos, mode, comments, err, raw, buf, rd
	posPtr  bool
	advance *ssa.Function
	revert  *ssa.Function
	judged  int
	lemma   bool // Advance and Revert are analysed themselves
	check   func(e *Engine, st *State, res []Val)
}

// numPaths finds the numbers of a position.
func numPaths(t types.Type, prefix string, out map[byte]string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := pathAdd(prefix, i)
		switch f.Name() {
		case "Offset":
			out['O'] = p
		case "Line":
			out['L'] = p
		case "Column":
			out['C'] = p
		default:
			if f.Embedded() {
				numPaths(f.Type(), p, out)
			}
		}
	}
}

func newRuneSem(p *Program) (*RuneSem, []string) {
	lx := newLex(p)
	s := &RuneSem{p: p, rc: newRuneClasses(p, lx), numPath: map[byte]string{}, fld: map[string]int{}}
	missing := append([]string(nil), s.rc.missing...)
	s.scnType = p.typ("lexer/scanner", "Scanner")
	s.posType = p.typ("lexer/scanner", "Position")
	if s.scnType == nil || s.posType == nil {
		return s, append(missing, "scanner.Scanner or scanner.Position")
	}
	numPaths(s.posType, "", s.numPath)
	if len(s.numPath) != 3 {
		missing = append(missing, "the fields Offset, Line and Column of scanner.Position")
	}
	s.advance = p.method("lexer/scanner", "Position", "Advance")
	s.revert = p.method("lexer/scanner", "Position", "Revert")
	if s.advance == nil || s.revert == nil {
		missing = append(missing, "Position.Advance and Position.Revert")
	}
	st, ok := s.scnType.Underlying().(*types.Struct)
	if !ok {
		return s, append(missing, "the fields of scanner.Scanner")
	}
	var runes []int
	txt := p.typ("lexer/scanner", "Text")
	one := func(k string, i int) {
		if _, dup := s.fld[k]; dup {
			missing = append(missing, "the field of scanner.Scanner for "+k+" is not unique")
		}
		s.fld[k] = i
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		switch {
		case types.Identical(t, s.posType):
			one("pos", i)
		case types.Identical(t, types.NewPointer(s.posType)):
			one("pos", i)
			s.posPtr = true
		case st.Field(i).Name() == "Mode":
			one("mode", i)
		case txt != nil && types.Identical(t, types.NewSlice(txt)):
			one("comments", i)
		case t.String() == "error":
			one("err", i)
		case types.Identical(t, types.NewSlice(types.Typ[types.Int32])):
			runes = append(runes, i)
		case strings.Contains(t.String(), "io.") || strings.Contains(t.String(), "bufio."):
			one("rd", i)
		default:
			missing = append(missing, "the purpose of the field "+st.Field(i).Name()+" of scanner.Scanner")
		}
	}
	// SetLastScanRaw tells which of the rune lists is the raw text of the last scan
	if f := p.method("lexer/scanner", "Scanner", "SetLastScanRaw"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, i := range runes {
						if fa.Field == i {
							s.fld["raw"] = i
						}
					}
				}
			}
		}
	}
	if len(runes) == 2 {
		for _, i := range runes {
			if r, ok := s.fld["raw"]; ok && i != r {
				s.fld["buf"] = i
			}
		}
	}
	for _, k := range []string{"pos", "mode", "comments", "raw", "buf", "rd"} {
		if _, ok := s.fld[k]; !ok {
			missing = append(missing, "the field of scanner.Scanner for "+k)
		}
	}
	return s, missing
}

// field reads a field of the scanner.
func (s *RuneSem) field(st *State, k string) (Val, bool) {
	p, ok := runeDom(st).scn.(VPtr)
	if !ok {
		return nil, false
	}
	i, ok := s.fld[k]
	if !ok {
		return nil, false
	}
	return st.load(VPtr{p.Obj, pathAdd(p.Path, i)})
}

// curPos is the position the scanner is at.
func (s *RuneSem) curPos(st *State) Val {
	v, ok := s.field(st, "pos")
	if !ok {
		return VTop{}
	}
	if p, isPtr := v.(VPtr); isPtr {
		if v, ok = st.load(p); !ok {
			return VTop{}
		}
	}
	return s.posOf(v)
}

// posOf tells at which boundary a position is.
func (s *RuneSem) posOf(v Val) Val {
	b := -1
	for _, f := range []byte("OLC") {
		x, ok := getPath(v, pathSplit(s.numPath[f]))
		if !ok {
			return VTop{}
		}
		switch p := x.(type) {
		case RPos:
			if p.F != f || b >= 0 && p.B != b {
				return RBad{}
			}
			b = p.B
		case RBad:
			return RBad{}
		default:
			return VTop{}
		}
	}
	return RPos{b, 'S'}
}

// setPosAt moves a position to a boundary; negative means that it is wrong.
func (s *RuneSem) setPosAt(st *State, p VPtr, b int) bool {
	for _, f := range []byte("OLC") {
		var x Val = RBad{}
		if b >= 0 {
			x = RPos{b, f}
		}
		n, ok := setPath(st.heap[p.Obj], append(pathSplit(p.Path), pathSplit(s.numPath[f])...), x)
		if !ok {
			return false
		}
		st.heap[p.Obj] = n
	}
	return true
}

// fork splits what a character can be.
func (s *RuneSem) fork(st *State, b int, pred func(c int) Val) []Out {
	d := runeDom(st)
	var sets []CSet
	var vals []Val
	idx := map[string]int{}
	for c := range s.rc.cls {
		if !d.segs[b].cls.has(c) {
			continue
		}
		v := pred(c)
		k := encStr(v)
		i, ok := idx[k]
		if !ok {
			i = len(sets)
			idx[k] = i
			sets = append(sets, CSet{})
			vals = append(vals, v)
		}
		sets[i] = sets[i].with(c)
	}
	var outs []Out
	for i := range sets {
		n := st
		if i < len(sets)-1 {
			n = st.clone()
		}
		runeDom(n).segs[b].cls = sets[i]
		outs = append(outs, Out{n, vals[i]})
	}
	return outs
}

// forkPred splits by a predicate that is the same for all members of a class.
func (s *RuneSem) forkPred(st *State, b int, pred func(r rune) bool) []Out {
	return s.fork(st, b, func(c int) Val {
		cl := &s.rc.cls[c]
		x := pred(cl.lo)
		for _, r := range cl.rest {
			if pred(r) != x {
				return VTop{}
			}
		}
		if cl.big && !cl.one {
			// the members not listed: compared by the bounds of what is listed
		}
		return VBool(x)
	})
}

func (f RFun) apply(r rune) int64 {
	x := int64(r)
	switch f.Op {
	case "+":
		return x + f.N
	case "-":
		return x - f.N
	case "|":
		return x | f.N
	case "&":
		return x & f.N
	case "^":
		return x ^ f.N
	case "&^":
		return x &^ f.N
	}
	return x
}

// known tells the one character a position holds.
func (s *RuneSem) known(d *RuneDom, b int) (rune, bool) {
	n, k := 0, -1
	for c := range s.rc.cls {
		if d.segs[b].cls.has(c) {
			n++
			k = c
		}
	}
	if n == 1 && s.rc.cls[k].one {
		return s.rc.cls[k].lo, true
	}
	return 0, false
}

// BinOp implements Sem.
func (s *RuneSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) {
	op := in.Op
	d := runeDom(st)
	if outs, ok := s.affOp(st, op, x, y); ok {
		return outs, true
	}
	if op == token.EQL || op == token.NEQ {
		if eq, known := sameErr(x, y); known {
			return one(st, VBool(eq == (op == token.EQL))), true
		}
		if anyErr(x, y) {
			return one(st, VAny{}), true
		}
	}
	if !isCmp(op) {
		if c, ok := x.(RCh); ok {
			if n, ok := y.(VInt); ok {
				return one(st, RFun{c.B, op.String(), int64(n)}), true
			}
			return one(st, VTop{}), true
		}
		if c, ok := y.(RCh); ok {
			if n, ok := x.(VInt); ok && (op == token.OR || op == token.AND || op == token.ADD || op == token.XOR) {
				return one(st, RFun{c.B, op.String(), int64(n)}), true
			}
			return one(st, VTop{}), true
		}
		if op == token.ADD {
			a, ok1 := x.(VStr)
			b, ok2 := y.(VStr)
			if ok1 && ok2 {
				return one(st, s.norm(d, strOf(a, b))), true
			}
		}
		return nil, false
	}
	if outs, ok := s.cmpRune(e, st, op, x, y); ok {
		return outs, true
	}
	if outs, ok := s.cmpRune(e, st, flip(op), y, x); ok {
		return outs, true
	}
	if l, ok := x.(VLen); ok {
		if n, ok := y.(VInt); ok {
			if outs, ok := s.cmpRest(e, st, op, l, n); ok {
				return outs, true
			}
		}
	}
	if l, ok := y.(VLen); ok {
		if n, ok := x.(VInt); ok {
			if outs, ok := s.cmpRest(e, st, flip(op), l, n); ok {
				return outs, true
			}
		}
	}
	a, ok1 := x.(VStr)
	b, ok2 := y.(VStr)
	if ok1 && ok2 && (op == token.EQL || op == token.NEQ) {
		a, b = s.norm(d, a), s.norm(d, b)
		if _, isC := constStr(a); isC {
			a, b = b, a
		}
		if c, isC := constStr(b); isC && len(a.P) == 1 {
			if sp, ok := a.P[0].(RSpan); ok {
				if outs, ok := s.cmpText(st, sp, c); ok {
					if op == token.NEQ {
						outs = negate(outs)
					}
					return outs, true
				}
			}
		}
	}
	return nil, false
}

// affOp calculates with the numbers of a position.
func (s *RuneSem) affOp(st *State, op token.Token, x, y Val) ([]Out, bool) {
	a, ok1 := x.(RAff)
	b, ok2 := y.(RAff)
	if w, ok := y.(RWidth); ok && ok1 && !isCmp(op) {
		var outs []Out
		for _, o := range s.fork(st, w.B, func(c int) Val { return VInt(utf8.RuneLen(s.rc.cls[c].lo)) }) {
			r, _ := s.affOp(o.st, op, x, o.v)
			outs = append(outs, r...)
		}
		return outs, true
	}
	n, ok3 := y.(VInt)
	m, ok4 := x.(VInt)
	switch {
	case ok1 && ok3 && op == token.ADD:
		return one(st, RAff{a.Sym, a.N + int(n)}), true
	case ok2 && ok4 && op == token.ADD:
		return one(st, RAff{b.Sym, b.N + int(m)}), true
	case ok1 && ok3 && op == token.SUB:
		return one(st, RAff{a.Sym, a.N - int(n)}), true
	case ok1 && ok2 && a.Sym == b.Sym && isCmp(op):
		return one(st, VBool(cmpInt(op, int64(a.N), int64(b.N)))), true
	case ok1 && ok2 && a.Sym == b.Sym && op == token.SUB:
		return one(st, VInt(a.N-b.N)), true
	case ok1 && ok3 && isCmp(op):
		// lines and columns begin at 1, offsets at 0
		min := int64(a.N)
		if a.Sym != "O" {
			min++
		}
		if v, ok := affAtLeast(op, min, int64(n)); ok {
			return one(st, v), true
		}
		return one(st, VTop{}), true
	case ok2 && ok4 && isCmp(op):
		return s.affOp(st, flip(op), y, x)
	}
	return nil, false
}

// affAtLeast compares a number that is min or more.
func affAtLeast(op token.Token, min, n int64) (Val, bool) {
	switch {
	case min > n:
		return VBool(op == token.GTR || op == token.GEQ || op == token.NEQ), true
	case min == n && (op == token.GEQ || op == token.LSS):
		return VBool(op == token.GEQ), true
	}
	return nil, false
}

// norm joins the pieces of a text. A constant next to a part of the source is
// taken as the source when that is what stands there.
func (s *RuneSem) norm(d *RuneDom, v VStr) VStr {
	ps := normRunes(d, v.P, true)
	for i := 0; i+1 < len(ps); i++ {
		a, isSpan := ps[i].(RSpan)
		c, isConst := ps[i+1].(VConstStr)
		if isSpan && isConst {
			at := a.Hi
			ok := true
			for _, r := range string(c) {
				if at >= d.n() || !d.segs[at].one {
					ok = false
					break
				}
				if k, known := s.known(d, at); !known || k != r {
					ok = false
					break
				}
				at++
			}
			if ok {
				n := append(append([]Val(nil), ps[:i]...), RSpan{a.Lo, at})
				return s.norm(d, VStr{append(n, ps[i+2:]...)})
			}
		}
		c, isConst = ps[i].(VConstStr)
		a, isSpan = ps[i+1].(RSpan)
		if isSpan && isConst {
			rs := []rune(string(c))
			at := a.Lo
			ok := true
			for j := len(rs) - 1; j >= 0; j-- {
				if at--; at < 0 || !d.segs[at].one {
					ok = false
					break
				}
				if k, known := s.known(d, at); !known || k != rs[j] {
					ok = false
					break
				}
			}
			if ok {
				n := append(append([]Val(nil), ps[:i]...), RSpan{at, a.Hi})
				return s.norm(d, VStr{append(n, ps[i+2:]...)})
			}
		}
	}
	return strOf(ps...)
}

func (s *RuneSem) cmpRune(e *Engine, st *State, op token.Token, x, y Val) ([]Out, bool) {
	d := runeDom(st)
	switch c := x.(type) {
	case RCh:
		switch n := y.(type) {
		case VInt:
			return s.forkPred(st, c.B, func(r rune) bool { return cmpInt(op, int64(r), int64(n)) }), true
		case RCh:
			if c.B == n.B {
				return one(st, VBool(cmpInt(op, 0, 0))), true
			}
			if r, ok := s.known(d, n.B); ok {
				return s.forkPred(st, c.B, func(q rune) bool { return cmpInt(op, int64(q), int64(r)) }), true
			}
			if r, ok := s.known(d, c.B); ok {
				return s.forkPred(st, n.B, func(q rune) bool { return cmpInt(op, int64(r), int64(q)) }), true
			}
			if op == token.EQL || op == token.NEQ {
				if d.segs[c.B].cls.and(d.segs[n.B].cls).empty() {
					return one(st, VBool(op == token.NEQ)), true
				}
				k := 0
				for i := range s.rc.cls {
					if d.segs[n.B].cls.has(i) {
						k++
						if !s.rc.cls[i].one {
							k += 100
						}
					}
				}
				if k <= 12 {
					// the few characters are told apart first
					var outs []Out
					for _, o := range s.fork(st, n.B, func(c int) Val { return VInt(c) }) {
						r, ok := s.cmpRune(e, o.st, op, x, y)
						if !ok {
							return nil, false
						}
						outs = append(outs, r...)
					}
					return outs, true
				}
			}
			return one(st, VTop{}), true
		}
	case RFun:
		if n, ok := y.(VInt); ok {
			return s.forkPred(st, c.B, func(r rune) bool { return cmpInt(op, c.apply(r), int64(n)) }), true
		}
		return one(st, VTop{}), true
	}
	return nil, false
}

// cmpText compares a text of the source with a constant.
func (s *RuneSem) cmpText(st *State, sp RSpan, c string) ([]Out, bool) {
	d := runeDom(st)
	single := true
	min := 0
	for i := sp.Lo; i < sp.Hi; i++ {
		single = single && d.segs[i].one
		if d.segs[i].one || d.segs[i].min > 0 {
			min++
		}
	}
	rs := []rune(c)
	if min > len(rs) || single && sp.Hi-sp.Lo != len(rs) {
		return one(st, VBool(false)), true
	}
	if single && len(rs) == 1 {
		return s.forkPred(st, sp.Lo, func(r rune) bool { return r == rs[0] }), true
	}
	if _, isWord := s.rc.wordIdx[c]; single && !isWord {
		var outs []Out
		cur := st
		for i := range rs {
			var next *State
			for _, o := range s.forkPred(cur, sp.Lo+i, func(r rune) bool { return r == rs[i] }) {
				if o.v == Val(VBool(true)) {
					next = o.st
				} else {
					outs = append(outs, o)
				}
			}
			if next == nil {
				return outs, true
			}
			cur = next
		}
		return append(outs, Out{cur, VBool(true)}), true
	}
	i, ok := s.rc.wordIdx[c]
	if !ok {
		return nil, false
	}
	f := d.fact(sp.Lo, sp.Hi, s.rc.allW)
	if !f.has(i) {
		return one(st, VBool(false)), true
	}
	w := CSet{}.with(i)
	if f == w {
		return one(st, VBool(true)), true
	}
	t := st.clone()
	runeDom(t).setFact(sp.Lo, sp.Hi, w)
	d.setFact(sp.Lo, sp.Hi, f.minus(w))
	return []Out{{t, VBool(true)}, {st, VBool(false)}}, true
}

// cmpRest compares the length of a list that begins with what was put back earlier.
func (s *RuneSem) cmpRest(e *Engine, st *State, op token.Token, l VLen, n VInt) ([]Out, bool) {
	v, ok := getPath(st.heap[l.Obj], pathSplit(l.Path))
	if !ok {
		return nil, false
	}
	arr, ok := v.(VArr)
	if !ok || l.Lo != 0 || len(arr.E) != 1 || l.Path != "" {
		return nil, false
	}
	if _, ok := arr.E[0].(RRest); !ok {
		return nil, false
	}
	var outs []Out
	put := func(x *State, items []Val, min int64, exact bool) {
		x.heap[l.Obj] = VArr{items}
		a := VLen{l.Obj, "", 0, l.Off}
		if exact {
			outs = append(outs, Out{x, VBool(cmpInt(op, min-int64(l.Off), int64(n)))})
			return
		}
		if b, ok := e.cmpAtLeast(x, op, a, n); ok {
			outs = append(outs, Out{x, b})
		} else {
			outs = append(outs, Out{x, VTop{}})
		}
	}
	t := st.clone()
	put(t, nil, 0, true)
	runeDom(t).restGone = true
	t.note(in0, "nothing is left of what was put back")
	d := runeDom(st)
	if d.restGone || d.end != 0 {
		return outs, true
	}
	k := d.n()
	d.segs = append(d.segs, RSeg{true, 1, s.rc.all})
	st.note(in0, "a character %d that was put back", k)
	put(st, []Val{RRest{}, RCh{k}}, 0, false)
	return outs, true
}

const in0 = token.NoPos

// Call implements Sem.
func (s *RuneSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn == nil {
		return nil, false
	}
	d := runeDom(st)
	switch fn {
	case s.advance, s.revert:
		if s.lemma {
			return nil, false
		}
		p, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		v, ok := st.load(p)
		if !ok {
			return nil, false
		}
		at, ok := s.posOf(v).(RPos)
		if !ok {
			if _, bad := s.posOf(v).(RBad); bad {
				return one(st, VTuple{}), true
			}
			return nil, false
		}
		b := -1
		switch c := args[1].(type) {
		case RCh:
			if fn == s.advance && c.B == at.B {
				b = at.B + 1
			}
			if fn == s.revert && c.B+1 == at.B {
				b = at.B - 1
			}
		case VInt:
		default:
			return nil, false
		}
		if b < 0 {
			st.note(site.Pos(), "the position %d is moved by a character that is not there", at.B)
		}
		if !s.setPosAt(st, p, b) {
			return nil, false
		}
		return one(st, VTuple{}), true
	}
	name := fn.RelString(nil)
	switch name {
	case "unicode/utf8.RuneLen":
		if c, ok := args[0].(RCh); ok {
			return s.fork(st, c.B, func(k int) Val { return VInt(utf8.RuneLen(s.rc.cls[k].lo)) }), true
		}
	case "errors.Is":
		if _, isNil := args[0].(VNil); isNil {
			return one(st, VBool(false)), true
		}
		if eq, known := sameErr(args[0], args[1]); known {
			return one(st, VBool(eq)), true
		}
		if anyErr(args[0], args[1]) {
			return one(st, VAny{}), true
		}
	case "bufio.NewReader", "bufio.NewReaderSize":
		return one(st, VOpaque{"reader"}), true
	case "(*bufio.Reader).ReadRune":
		return s.readRune(e, st, site), true
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.EqualFold":
		x := args[0]
		c, isC := "", false
		if len(args) == 2 {
			if c, isC = constStr(args[1]); !isC {
				c, isC = constStr(x)
				x = args[1]
			}
			if !isC {
				break
			}
		}
		str, ok := x.(VStr)
		if !ok {
			break
		}
		if str = s.norm(d, str); len(str.P) != 1 {
			break
		}
		sp, ok := str.P[0].(RSpan)
		if !ok {
			break
		}
		f := d.fact(sp.Lo, sp.Hi, s.rc.allW)
		rest := f
		var outs []Out
		by := map[string]CSet{}
		for i, w := range s.rc.words {
			if !f.has(i + 1) {
				continue
			}
			k := ""
			if isC {
				k = fmt.Sprint(strings.EqualFold(w, c))
			} else {
				k = caseFuncs[name](w)
			}
			by[k] = by[k].with(i + 1)
			rest = rest.minus(CSet{}.with(i + 1))
		}
		for _, k := range sortedKeys(by) {
			t := st.clone()
			runeDom(t).setFact(sp.Lo, sp.Hi, by[k])
			if isC {
				outs = append(outs, Out{t, VBool(k == "true")})
			} else {
				outs = append(outs, Out{t, strOf(VConstStr(k))})
			}
		}
		if !rest.empty() {
			d.setFact(sp.Lo, sp.Hi, rest)
			outs = append(outs, Out{st, VTop{}})
		}
		return outs, true
	case "strings.ContainsRune":
		if c, ok := args[1].(RCh); ok {
			if t, ok := constStr(args[0]); ok {
				return s.forkPred(st, c.B, func(r rune) bool { return strings.ContainsRune(t, r) }), true
			}
		}
	case "strings.IndexRune":
		if c, ok := args[1].(RCh); ok {
			if t, ok := constStr(args[0]); ok {
				return s.fork(st, c.B, func(k int) Val { return VInt(strings.IndexRune(t, s.rc.cls[k].lo)) }), true
			}
		}
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRuneInString":
		if str, ok := args[0].(VStr); ok {
			str = s.norm(d, str)
			if len(str.P) == 1 {
				if sp, ok := str.P[0].(RSpan); ok {
					last := strings.Contains(name, "Last")
					if b, ok := s.cutOff(e, st, sp, last); ok {
						return one(st, VTuple{[]Val{RCh{b}, VTop{}}}), true
					}
				}
			}
		}
	}
	if name == "unicode.Is" || name == "unicode.In" {
		if _, pred, _ := tablePred(site.Common()); pred != nil {
			i := 0
			if name == "unicode.Is" {
				i = 1
			}
			if c, ok := args[i].(RCh); ok {
				return s.forkPred(st, c.B, pred), true
			}
		}
	}
	if pred, ok := runePreds[name]; ok {
		if c, ok := args[0].(RCh); ok {
			return s.forkPred(st, c.B, pred), true
		}
	}
	return nil, false
}

// cutOff makes the last or first character of a text that is not empty a segment of its own.
func (s *RuneSem) cutOff(e *Engine, st *State, sp RSpan, last bool) (int, bool) {
	d := runeDom(st)
	if sp.Lo == sp.Hi {
		return 0, false
	}
	i := sp.Lo
	if last {
		i = sp.Hi - 1
	}
	g := d.segs[i]
	if g.one {
		return i, true
	}
	if g.min == 0 {
		return 0, false
	}
	ch, many := RSeg{true, 1, s.rc.all}, RSeg{}
	if last {
		s.insert(e, st, i, many, ch)
		return i + 1, true
	}
	s.insert(e, st, i, ch, many)
	return i, true
}

// Invoke implements Sem.
func (s *RuneSem) Invoke(e *Engine, st *State, site ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool) {
	if m.Name() == "ReadRune" {
		return s.readRune(e, st, site), true
	}
	return nil, false
}

// readErr is the error of a failing reader: any but io.EOF.
var readErr = VIface{types.Typ[types.UnsafePointer], VOpaque{"the error of the reader"}}

// sameErr compares errors.
func sameErr(x, y Val) (eq, known bool) {
	a, ok1 := x.(VIface)
	b, ok2 := y.(VIface)
	if !ok1 || !ok2 {
		return false, false
	}
	p, ok1 := a.V.(VOpaque)
	q, ok2 := b.V.(VOpaque)
	switch {
	case !ok1 || !ok2:
		return false, false
	case p == q:
		return true, true
	case a == readErr:
		return false, q.Name == "io.EOF"
	case b == readErr:
		return false, p.Name == "io.EOF"
	}
	return false, true
}

// anyErr tells that the error of a failing reader is compared with another error:
// the reader can fail with any error.
func anyErr(x, y Val) bool {
	a, ok1 := x.(VIface)
	b, ok2 := y.(VIface)
	if !ok1 || !ok2 || a == b || a != readErr && b != readErr {
		return false
	}
	_, ok1 = a.V.(VOpaque)
	_, ok2 = b.V.(VOpaque)
	return ok1 && ok2
}

// readRune reads the next character of the source.
func (s *RuneSem) readRune(e *Engine, st *State, site ssa.CallInstruction) []Out {
	d := runeDom(st)
	if !d.restGone {
		// is anything left of what was put back?
		e.report(st, "C20", site.Pos(), "the source is read although text that has been put back may be left")
		return nil
	}
	ret := func(x *State, r Val, err Val) Out { return Out{x, VTuple{[]Val{r, VTop{}, err}}} }
	atEOF := VIface{types.Typ[types.UnsafePointer], VOpaque{"io.EOF"}}
	switch d.end {
	case 'E':
		return []Out{ret(st, VInt(0), atEOF)}
	case 'X':
		e.undecided(st, site.Pos(), "the reader is used again after it has failed")
		return nil
	}
	a := st.clone()
	runeDom(a).end = 'E'
	a.note(site.Pos(), "the source ends at %d", d.n())
	b := st.clone()
	runeDom(b).end = 'X'
	b.note(site.Pos(), "the reader fails at %d", d.n())
	k := d.n()
	d.segs = append(d.segs, RSeg{true, 1, s.rc.all})
	st.note(site.Pos(), "character %d is read from the source", k)
	return []Out{ret(a, VInt(0), atEOF), ret(b, VInt(0), readErr), ret(st, RCh{k}, VNil{})}
}

// Lookup implements Sem.
func (s *RuneSem) Lookup(e *Engine, st *State, in *ssa.Lookup, m VMapC, key Val) ([]Out, bool) {
	d := runeDom(st)
	switch k := key.(type) {
	case RAff:
		// a map whose other entries are those the analysis began with
		for i, x := range m.K {
			y, ok := x.(RAff)
			if !ok || y.Sym != k.Sym {
				return nil, false
			}
			if y.N == k.N {
				return one(st, m.V[i]), true
			}
		}
		if !s.lemma {
			return nil, false
		}
		return one(st, RAff{fmt.Sprintf("M%s%+d", k.Sym, k.N), 0}), true
	case RCh:
		outs := s.fork(st, k.B, func(c int) Val {
			cl := &s.rc.cls[c]
			for i, x := range m.K {
				if n, ok := x.(VInt); ok && rune(n) == cl.lo && cl.one {
					return VTuple{[]Val{VInt(i)}}
				}
			}
			return VNil{}
		})
		for i, o := range outs {
			if t, ok := o.v.(VTuple); ok {
				outs[i].v = m.V[t.F[0].(VInt)]
			} else {
				outs[i].v = nil
			}
		}
		return outs, true
	case VStr:
		k = s.norm(d, k)
		if len(k.P) != 1 {
			return nil, false
		}
		sp, ok := k.P[0].(RSpan)
		if !ok {
			return nil, false
		}
		f := d.fact(sp.Lo, sp.Hi, s.rc.allW)
		rest := f
		var outs []Out
		for i, x := range m.K {
			c, ok := constStr(x)
			if !ok {
				return nil, false
			}
			w, ok := s.rc.wordIdx[c]
			if !ok {
				return nil, false
			}
			rest = rest.minus(CSet{}.with(w))
			if !f.has(w) {
				continue
			}
			t := st.clone()
			runeDom(t).setFact(sp.Lo, sp.Hi, CSet{}.with(w))
			outs = append(outs, Out{t, m.V[i]})
		}
		if !rest.empty() {
			d.setFact(sp.Lo, sp.Hi, rest)
			outs = append(outs, Out{st, nil})
		}
		return outs, true
	}
	return nil, false
}

// Convert implements Sem.
func (s *RuneSem) Convert(e *Engine, st *State, in *ssa.Convert, x Val) ([]Out, bool) {
	d := runeDom(st)
	toString := in == nil
	toRunes := false
	if in != nil {
		switch t := in.Type().Underlying().(type) {
		case *types.Basic:
			toString = t.Info()&types.IsString != 0
		case *types.Slice:
			b, ok := t.Elem().Underlying().(*types.Basic)
			toRunes = ok && b.Kind() == types.Int32
		}
	}
	switch v := x.(type) {
	case RCh:
		if toString {
			return one(st, VStr{[]Val{RSpan{v.B, v.B + 1}}}), true
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			switch b.Kind() {
			case types.Int32, types.Int, types.Int64, types.Uint32, types.Uint, types.Uint64:
				return one(st, v), true
			}
			return one(st, VTop{}), true
		}
	case VSlice:
		if toString {
			its, ok := e.items(st, v)
			if !ok {
				return nil, false
			}
			var ps []Val
			for _, it := range its {
				switch it := it.(type) {
				case RCh, RSpan:
					ps = append(ps, it)
				case VInt:
					ps = append(ps, VConstStr(string(rune(it))))
				default:
					ps = append(ps, VTop{})
				}
			}
			return one(st, strOf(normRunes(d, ps, true)...)), true
		}
	case VStr:
		if toRunes {
			var its []Val
			for _, p := range s.norm(d, v).P {
				switch p := p.(type) {
				case RSpan:
					its = append(its, p)
				case VConstStr:
					for _, r := range string(p) {
						its = append(its, VInt(r))
					}
				default:
					return nil, false
				}
			}
			return one(st, e.newSlice(st, normRunes(d, its, false))), true
		}
	}
	return nil, false
}

// Slice implements Sem: a part of a list of characters is a list of its own.
func (s *RuneSem) Slice(e *Engine, st *State, in *ssa.Slice, x, lo, hi Val) ([]Out, bool) {
	p, ok := x.(VSlice)
	if !ok || p.Hi >= 0 {
		return nil, false
	}
	sl, ok := in.X.Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
		return nil, false
	}
	if h, ok := hi.(VInt); ok && h == 0 && in.High != nil {
		return one(st, e.newSlice(st, nil)), true
	}
	if its, ok := e.items(st, p); ok && hasSpread(its) < 0 {
		a, ok1 := lo.(VInt)
		b, ok2 := hi.(VInt)
		if in.Low == nil {
			a, ok1 = 0, true
		}
		if in.High == nil {
			b, ok2 = VInt(len(its)), true
		}
		if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(its) {
			return one(st, e.newSlice(st, append([]Val(nil), its[a:b]...))), true
		}
		return nil, false
	}
	l, ok := hi.(VLen)
	if !ok {
		return nil, false
	}
	if n, ok := lo.(VInt); !ok || n != 0 {
		return nil, false
	}
	if l.Obj != p.Obj && l.Off == 0 && l.Lo == 0 && l.Path == "" {
		// the length of another list that this one begins with
		old, ok := st.heap[l.Obj].(VArr)
		its, ok2 := e.items(st, p)
		d := runeDom(st)
		if !ok || !ok2 {
			return nil, false
		}
		a, b := normRunes(d, old.E, false), normRunes(d, its, false)
		for i := range a {
			if i >= len(b) {
				return nil, false
			}
			if sameVal(a[i], b[i]) {
				continue
			}
			if i < len(a)-1 {
				return nil, false
			}
			lo, hi, ok1 := spanOf(a[i])
			lo2, hi2, ok2 := spanOf(b[i])
			if !ok1 || !ok2 || lo != lo2 || hi > hi2 {
				return nil, false
			}
		}
		return one(st, e.newSlice(st, append([]Val(nil), a...))), true
	}
	if l.Obj != p.Obj {
		return nil, false
	}
	if l.Off == 0 {
		return one(st, x), true
	}
	k, ok := e.fromEnd(st, p, l)
	if !ok {
		return nil, false
	}
	its, ok := e.items(st, p)
	if !ok || k-p.Lo > len(its) {
		return nil, false
	}
	return one(st, e.newSlice(st, append([]Val(nil), its[:k-p.Lo]...))), true
}

func spanOf(v Val) (lo, hi int, ok bool) {
	switch x := v.(type) {
	case RCh:
		return x.B, x.B + 1, true
	case RSpan:
		return x.Lo, x.Hi, true
	}
	return 0, 0, false
}

// Taints tells the engine that unknown conditions are not relied on.
func (s *RuneSem) Taints() {}

// Len implements Sem: the bytes of a text.
func (s *RuneSem) Len(e *Engine, st *State, x Val) (Val, bool) {
	v, ok := x.(VStr)
	if !ok {
		return nil, false
	}
	d := runeDom(st)
	min, exact := 0, true
	for _, p := range s.norm(d, v).P {
		switch p := p.(type) {
		case VConstStr:
			min += len(p)
		case RSpan:
			for i := p.Lo; i < p.Hi; i++ {
				if !d.segs[i].one {
					exact = false
					min += d.segs[i].min
					continue
				}
				a, b := 4, 1
				for c := range s.rc.cls {
					if d.segs[i].cls.has(c) {
						n := utf8.RuneLen(s.rc.cls[c].lo)
						if n < a {
							a = n
						}
						if n > b {
							b = n
						}
					}
				}
				min += a
				exact = exact && a == b
				if a != b && v.P != nil && len(v.P) == 1 && p.Hi == p.Lo+1 {
					return RWidth{p.Lo}, true
				}
			}
		default:
			return nil, false
		}
	}
	if exact {
		return VInt(min), true
	}
	return VAny{min}, true
}

// ListElemBack makes the last character of a part of a list an item of its own.
func (s *RuneSem) ListElemBack(e *Engine, st *State, obj int, path string, k int) (int, bool) {
	if path != "" {
		return 0, false
	}
	arr := st.heap[obj].(VArr)
	many, ch := RSeg{}, RSeg{true, 1, s.rc.all}
	switch x := arr.E[k].(type) {
	case RSpan:
		i := x.Hi - 1
		if d := runeDom(st); !d.segs[i].one {
			s.insert(e, st, i, many, ch)
			i++
		}
		arr = st.heap[obj].(VArr)
		x = arr.E[k].(RSpan)
		n := append([]Val(nil), arr.E[:k]...)
		at := k
		if x.Lo < i {
			n = append(n, RSpan{x.Lo, i})
			at++
		}
		n = append(n, RCh{i})
		st.heap[obj] = VArr{append(n, arr.E[k+1:]...)}
		return at, true
	}
	return 0, false
}

// SplitLast makes the last character of a part of a list an item of its own.
func (s *RuneSem) SplitLast(e *Engine, st *State, p VSlice, i int) bool {
	if p.Path != "" || e.iterated(st, p.Obj) {
		return false
	}
	its, _ := e.items(st, p)
	switch x := its[i].(type) {
	case RSpan:
		b, ok := s.cutOff(e, st, x, true)
		if !ok {
			return false
		}
		its, _ = e.items(st, p)
		y := its[i].(RSpan)
		return e.single(st, p, i, []Val{RSpan{y.Lo, b}, RCh{b}})
	case RRev:
		b, ok := s.cutOff(e, st, RSpan{x.Lo, x.Hi}, false)
		if !ok {
			return false
		}
		its, _ = e.items(st, p)
		y := its[i].(RRev)
		return e.single(st, p, i, []Val{RRev{b + 1, y.Hi}, RCh{b}})
	}
	return false
}

// ListElemAt is told that an iteration arrives at the first character of a part of a list.
func (s *RuneSem) ListElemAt(e *Engine, st *State, obj int, path string, k int) bool {
	if path != "" {
		return true
	}
	arr := st.heap[obj].(VArr)
	var sp RSpan
	rev := false
	switch x := arr.E[k].(type) {
	case RSpan:
		sp = x
	case RRev:
		sp, rev = RSpan(x), true
	default:
		return true
	}
	d := runeDom(st)
	i := sp.Lo
	if rev {
		i = sp.Hi - 1
	}
	if !d.segs[i].one {
		ch, many := RSeg{true, 1, s.rc.all}, RSeg{}
		if rev {
			s.insert(e, st, i, many, ch)
			i++
		} else {
			s.insert(e, st, i, ch, many)
		}
	}
	arr = st.heap[obj].(VArr)
	n := append([]Val(nil), arr.E[:k]...)
	n = append(n, RCh{i})
	switch x := arr.E[k].(type) {
	case RSpan:
		if x.Hi > i+1 {
			n = append(n, RSpan{i + 1, x.Hi})
		}
	case RRev:
		if x.Lo < i {
			n = append(n, RRev{x.Lo, i})
		}
	}
	st.heap[obj] = VArr{append(n, arr.E[k+1:]...)}
	return true
}

// ListEnd implements Sem.
func (s *RuneSem) ListEnd(e *Engine, st *State, sp Spread, empty bool) bool {
	d := runeDom(st)
	var lo, hi int
	switch x := sp.(type) {
	case RSpan:
		lo, hi = x.Lo, x.Hi
	case RRev:
		lo, hi = x.Lo, x.Hi
	default:
		return true
	}
	if !empty {
		return true
	}
	for i := lo; i < hi; i++ {
		if d.segs[i].one || d.segs[i].min > 0 {
			return false
		}
	}
	for i := hi - 1; i >= lo; i-- {
		s.remove(e, st, i)
	}
	return true
}

// Index implements Sem: iteration over a text.
func (s *RuneSem) Index(e *Engine, st *State, in ssa.Instruction, x, i Val) ([]Out, bool) {
	it, ok := x.(VIter)
	nx, ok2 := in.(*ssa.Next)
	if !ok || !ok2 {
		return nil, false
	}
	str, ok := it.Of.(VStr)
	if !ok {
		return nil, false
	}
	d := runeDom(st)
	str = s.norm(d, str)
	done := func(st *State) Out {
		return Out{st, VTuple{[]Val{VBool(false), VInt(0), VInt(0)}}}
	}
	if len(str.P) == 0 {
		return []Out{done(st)}, true
	}
	sp, ok := str.P[0].(RSpan)
	if !ok || len(str.P) != 1 {
		return nil, false
	}
	reg := func(x *State) RSpan { return e.val(x, nx.Iter).(VIter).Of.(VStr).P[0].(RSpan) }
	e.refine(st, nx.Iter, VIter{str, 0})
	var outs []Out
	g := d.segs[sp.Lo]
	if !g.one && g.min == 0 {
		t := st.clone()
		s.remove(e, t, sp.Lo)
		if r := reg(t); r.Lo == r.Hi {
			e.refine(t, nx.Iter, VIter{VStr{}, 0})
			outs = append(outs, done(t))
		} else {
			rest, ok := s.Index(e, t, in, e.val(t, nx.Iter), i)
			if !ok {
				return nil, false
			}
			outs = append(outs, rest...)
		}
	}
	if !g.one {
		s.insert(e, st, sp.Lo, RSeg{true, 1, s.rc.all}, RSeg{})
	}
	r := reg(st)
	st.prog++
	n := VStr{[]Val{RSpan{r.Lo + 1, r.Hi}}}
	if r.Lo+1 == r.Hi {
		n = VStr{}
	}
	e.refine(st, nx.Iter, VIter{n, 0})
	outs = append(outs, Out{st, VTuple{[]Val{VBool(true), VTop{}, RCh{r.Lo}}}})
	return outs, true
}

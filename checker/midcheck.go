package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The collection of the comments inside a statement: GetScannedComments keeps
// every comment the scanner has recorded once, FindMidComments those between
// two positions. Both are analysed over a list of any length, with what the
// code finds out about the current comment as facts.

type (
	// MAll is a list of comments of any length.
	MAll struct{}
	// MKept is what is expected of a result after some iterations.
	// Bad is what is wrong with it.
	MKept struct{ Bad string }
	// MF is a part of the current comment (c), of a comment that has been
	// kept (k), or of the limits (f, t). Those of earlier comments have Item -1.
	MF struct {
		W    byte
		Item int
		Path string
	}
)

// Element implements Spread.
func (v MAll) Element() Val { return MF{W: 'c'} }

// Map implements DomVal.
func (v MAll) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v MAll) Enc(b *Enc) { b.WriteString("all") }

// Element implements Spread.
func (v MKept) Element() Val { return MF{W: 'k'} }

// Map implements DomVal.
func (v MKept) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v MKept) Enc(b *Enc) { b.WriteString("kept<" + v.Bad + ">") }

// Map implements DomVal.
func (v MF) Map(m *Mapper) Val {
	if v.W != 'c' && v.W != 'k' || v.Item < 0 || m.Item == nil {
		return v
	}
	v.Item = m.Item(int(v.W))
	return v
}

// Enc implements DomVal.
func (v MF) Enc(b *Enc) {
	b.WriteString("m" + string([]byte{v.W}))
	b.ints(v.Item)
	b.WriteString(v.Path)
}

// MidDom holds the facts.
type MidDom struct {
	from, to    int // relation of the comment to the limits: 0 unknown, 1 before, 2 at, 3 behind
	k           int // the kept comment: 0 unknown, 1 the same, 2 another one
	dup         bool
	unsure      bool
	distinct    bool
	inside, end bool // the list is iterated; all of it has been
}

// Clone implements Dom.
func (d *MidDom) Clone() Dom { n := *d; return &n }

// Vals implements Dom.
func (d *MidDom) Vals(f func(Val) Val) {}

// Enc implements Dom.
func (d *MidDom) Enc(b *Enc) {
	b.ints(d.from, d.to, d.k)
	b.bools(d.dup, d.unsure, d.distinct, d.inside, d.end)
}

// MidSem interprets the two functions.
type MidSem struct {
	BaseSem
	p         *Program
	text, pos types.Type
	offset    string // path of the offset in a comment
	posOffset string // and in a position
	get       *ssa.Function
	unique    bool
	done      func(st *State, res []Val)
}

// Taints implements the mark behind unknown conditions.
func (s *MidSem) Taints() {}

func midDom(st *State) *MidDom { return st.dom.(*MidDom) }

// shape builds a value from the parts of a comment or position.
func (s *MidSem) shape(w byte, path string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = s.shape(w, pathAdd(path, i), u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strOf(MF{W: w, Path: path})
		}
	}
	return MF{W: w, Path: path}
}

// Expand gives an element its shape.
func (s *MidSem) Expand(el Val, path []int, t types.Type) Val {
	p := ""
	for _, i := range path {
		p = pathAdd(p, i)
	}
	if m, ok := el.(MF); ok {
		return s.shape(m.W, p, t)
	}
	return VTop{}
}

// Call implements Sem.
func (s *MidSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn == s.get {
		return one(st, e.newSlice(st, []Val{MAll{}})), true
	}
	return nil, false
}

func part(v Val) (MF, bool) {
	if t, ok := v.(VStr); ok && len(t.P) == 1 {
		v = t.P[0]
	}
	m, ok := v.(MF)
	return m, ok
}

// wholeOf recognises a whole comment or position.
func wholeOf(v Val, has string) (byte, bool) {
	var w byte
	found, good := false, true
	var walk func(v Val)
	walk = func(v Val) {
		if t, ok := v.(VStruct); ok {
			for _, f := range t.F {
				walk(f)
			}
			return
		}
		m, ok := part(v)
		if !ok || m.Item < 0 || w != 0 && m.W != w {
			good = false
			return
		}
		w = m.W
		found = found || m.Path == has
	}
	if _, ok := v.(VStruct); !ok {
		return 0, false
	}
	walk(v)
	return w, good && found
}

// BinOp implements Sem.
func (s *MidSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) {
	op := in.Op
	if !isCmp(op) {
		return nil, false
	}
	eq := func(st *State, b bool) Out { return Out{st, VBool(b == (op == token.EQL))} }
	if a, ok := wholeOf(x, s.offset); ok {
		if b, ok := wholeOf(y, s.offset); ok && (op == token.EQL || op == token.NEQ) && a != b {
			return s.same(st, eq), true
		}
	}
	a, ok1 := part(x)
	b, ok2 := part(y)
	if !ok1 || !ok2 || a.Item < 0 || b.Item < 0 {
		return nil, false
	}
	if a.W > b.W {
		a, b, op = b, a, flip(op)
	}
	switch {
	case a.W == 'c' && b.W == 'k' && a.Path == b.Path && (op == token.EQL || op == token.NEQ):
		d := midDom(st)
		if a.Path == s.offset {
			return s.same(st, eq), true
		}
		// equal parts tell nothing unless they are told apart by them
		switch d.k {
		case 1:
			return []Out{eq(st, true)}, true
		}
		o := st.clone()
		midDom(o).k = 2
		return []Out{eq(st, true), eq(o, false)}, true
	case a.W == 'c' && (b.W == 'f' || b.W == 't') && a.Path == s.offset && b.Path == s.posOffset:
		var outs []Out
		for r := 1; r <= 3; r++ {
			n := st.clone()
			d := midDom(n)
			if b.W == 'f' {
				if d.from != 0 && d.from != r {
					continue
				}
				d.from = r
				if r < 3 {
					if d.to != 0 && d.to != 1 {
						continue
					}
					d.to = 1 // the first limit is in front of the second one
				}
			} else {
				if d.to != 0 && d.to != r {
					continue
				}
				d.to = r
				if r > 1 {
					if d.from != 0 && d.from != 3 {
						continue
					}
					d.from = 3
				}
			}
			outs = append(outs, Out{n, VBool(cmpInt(op, int64(r), 2))})
		}
		return outs, true
	case a.W == 'f' && b.W == 't' && a.Path == s.posOffset && b.Path == s.posOffset:
		return one(st, VBool(cmpInt(op, 1, 2))), true
	}
	return nil, false
}

// same splits by the identity of the current and a kept comment.
func (s *MidSem) same(st *State, eq func(*State, bool) Out) []Out {
	switch midDom(st).k {
	case 1:
		return []Out{eq(st, true)}
	case 2:
		return []Out{eq(st, false)}
	}
	o := st.clone()
	midDom(st).k, midDom(o).k = 1, 2
	return []Out{eq(st, true), eq(o, false)}
}

func (d *MidDom) leaveKept() {
	switch d.k {
	case 1:
		d.dup = true
	case 0:
		d.unsure = true
	}
	d.k = 0
}

// ListElem is told that an iteration comes to an element.
func (s *MidSem) ListElem(e *Engine, st *State, sp Spread, first bool) bool {
	d := midDom(st)
	switch sp.(type) {
	case MAll:
		if first && d.inside {
			e.undecided(st, e.pos(st), "the comments are iterated more than once")
			return false
		}
		*d = MidDom{inside: true}
		d.distinct = !s.anyKept(st)
	case MKept:
		if first {
			d.k = 0
		} else {
			d.leaveKept()
		}
	}
	return true
}

// ListEnd implements Sem.
func (s *MidSem) ListEnd(e *Engine, st *State, sp Spread, empty bool) bool {
	d := midDom(st)
	switch sp.(type) {
	case MAll:
		*d = MidDom{inside: true, end: true}
	case MKept:
		if !empty {
			d.leaveKept()
		}
		if !d.dup && !d.unsure {
			d.distinct = true
		}
	}
	return true
}

func (s *MidSem) anyKept(st *State) bool {
	for _, h := range st.heap {
		if a, ok := h.(VArr); ok {
			for _, x := range a.E {
				if _, ok := x.(MKept); ok {
					return true
				}
			}
		}
	}
	return false
}

// LoopHead implements Sem: at the head of the loop over the comments the lists are judged.
func (s *MidSem) LoopHead(e *Engine, st *State) bool {
	f := st.top()
	outer := false
	for i := 0; i < firstNonPhi(f.block); i++ {
		if c, ok := cursorOf(f.regs[f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]]); ok {
			if v, ok := getPath(st.heap[c.Obj], pathSplit(c.Path)); ok {
				if a, ok := v.(VArr); ok && c.K < len(a.E) {
					_, all := a.E[c.K].(MAll)
					outer = outer || all
				}
			}
		}
	}
	if !outer {
		return true
	}
	w := &midFolder{s: s, e: e, st: st, seen: map[int]bool{}}
	for _, fr := range st.frames {
		for v, k := range fr.fi.idx {
			if fr.regs[k] != nil {
				fr.regs[k] = w.val(fr.regs[k], v.Type())
			}
		}
	}
	m := &Mapper{Item: func(int) int { return -1 }}
	st.mapAll(m)
	e.mapHeap(st, m)
	*midDom(st) = MidDom{inside: true}
	return true
}

// verdict tells whether the current comment has to be kept: yes, no or either.
func (s *MidSem) verdict(d *MidDom) (keep, drop bool) {
	if s.unique {
		dup := d.dup || d.k == 1
		return !dup, !d.distinct
	}
	// at a limit stands the token itself, never a comment
	if d.from == 2 || d.to == 2 {
		return false, false
	}
	keep = d.from != 1 && d.to != 3
	drop = d.from != 3 || d.to != 1
	return keep, drop
}

type midFolder struct {
	s    *MidSem
	e    *Engine
	st   *State
	seen map[int]bool
}

func (w *midFolder) val(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VNil, VSlice:
		if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), w.s.text) {
			return w.list(v)
		}
	case VPtr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && x.Path == "" && x.Obj >= w.e.nbase && !w.seen[x.Obj] {
			w.seen[x.Obj] = true
			w.st.heap[x.Obj] = w.val(w.st.heap[x.Obj], pt.Elem())
		}
	case VStruct:
		if stt, ok := t.Underlying().(*types.Struct); ok && stt.NumFields() == len(x.F) {
			f := append([]Val(nil), x.F...)
			for i := range f {
				f[i] = w.val(f[i], stt.Field(i).Type())
			}
			return VStruct{f}
		}
	case VFn:
		for i := range x.B {
			if i < len(x.Fn.FreeVars) {
				w.val(x.B[i], x.Fn.FreeVars[i].Type())
			}
		}
	}
	return v
}

// list judges a list at the end of an iteration.
func (w *midFolder) list(v Val) Val {
	its, ok := w.e.items(w.st, v)
	if !ok {
		return v
	}
	bad, added := "", 0
	for i, it := range its {
		switch x := it.(type) {
		case MAll:
			return v
		case MKept:
			if bad == "" {
				bad = x.Bad
			}
			if i > 0 {
				bad = "the comments are not kept in their order"
			}
		default:
			if c, ok := wholeOf(it, w.s.offset); ok && c == 'c' {
				added++
			} else {
				bad = "a comment is kept that is not the current one"
			}
		}
	}
	keep, drop := w.s.verdict(midDom(w.st))
	switch {
	case bad != "":
	case added > 1:
		bad = "a comment is kept more than once"
	case added == 1 && drop:
		bad = "a comment is kept that has been kept before"
		if !w.s.unique {
			bad = "a comment is kept that is not between the limits"
		}
	case added == 0 && keep:
		bad = "a comment is left out that has not been kept before"
		if !w.s.unique {
			bad = "a comment between the limits is left out"
		}
	}
	if len(its) == 0 && bad == "" {
		return v
	}
	n := w.e.newSlice(w.st, []Val{MKept{bad}})
	if sl, ok := v.(VSlice); ok && sl.Path == "" && sl.Lo == 0 && sl.Hi < 0 {
		// other references to the list see the same
		w.st.heap[sl.Obj] = VArr{[]Val{MKept{bad}}}
		return v
	}
	return n
}

// Finish implements Sem.
func (s *MidSem) Finish(e *Engine, st *State, results []Val) { s.done(st, results) }

// checkMid analyses both functions.
func checkMid(p *Program) (fs, und []*Finding, coverage map[string]interface{}) {
	coverage = map[string]interface{}{}
	get := p.method("lexer/scanner", "Scanner", "GetScannedComments")
	mid := p.method("lexer", "Lexer", "FindMidComments")
	tt := p.typ("lexer/scanner", "Text")
	miss := func(format string, args ...interface{}) {
		und = append(und, &Finding{Cat: "undecided", Msg: fmt.Sprintf(format, args...), Where: "-", Func: "-"})
	}
	if get == nil || mid == nil || tt == nil || len(mid.Params) != 3 {
		miss("FindMidComments, GetScannedComments or scanner.Text cannot be found")
		return
	}
	pp := fieldPath(tt, "Pos")
	var post types.Type
	if stt, ok := tt.Underlying().(*types.Struct); ok {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "Pos" {
				post = stt.Field(i).Type()
			}
		}
	}
	if post == nil || fieldPath(post, "Offset") == "" {
		miss("the offset of a comment cannot be found")
		return
	}
	judged := 0
	for _, fn := range []*ssa.Function{get, mid} {
		s := &MidSem{p: p, text: tt, pos: post, offset: pp + fieldPath(post, "Offset"), unique: fn == get}
		if fn == mid {
			s.get = get
		}
		e := newEngine(p)
		e.sem = s
		e.setupGlobals()
		e.root = short(fn)
		st := e.newState()
		st.dom = &MidDom{}
		var args []Val
		for i, prm := range fn.Params {
			t := prm.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				stt, ok := pt.Elem().Underlying().(*types.Struct)
				if !ok {
					miss("%s has an unexpected receiver", short(fn))
					return
				}
				f := make([]Val, stt.NumFields())
				n := 0
				for j := range f {
					f[j] = VOpaque{"field " + stt.Field(j).Name()}
					if sl, ok := stt.Field(j).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tt) {
						f[j] = e.newSlice(st, []Val{MAll{}})
						n++
					}
				}
				if fn == get && n != 1 {
					miss("%s has %d lists of comments", short(fn), n)
					return
				}
				args = append(args, VPtr{st.alloc(VStruct{f}), ""})
				continue
			}
			s.posOffset = fieldPath(t, "Offset")
			args = append(args, s.shape("ft"[i-1], "", t))
		}
		s.done = func(st *State, res []Val) {
			judged++
			bad := ""
			d := midDom(st)
			its, ok := e.items(st, res[0])
			switch {
			case !ok:
				e.undecided(st, fn.Pos(), "the result is not understood (%s)", encStr(res[0]))
				return
			case !d.inside && len(its) == 0:
				return // there are none
			case !d.end:
				bad = "the iteration is ended early"
			}
			for i, it := range its {
				switch x := it.(type) {
				case MKept:
					if i == 0 && bad == "" {
						bad = x.Bad
					}
				default:
					if bad == "" {
						bad = "the result is not the list of what has been kept"
					}
				}
			}
			if bad != "" {
				e.report(st, "C09", fn.Pos(), "%s", bad)
			}
		}
		e.push(st, fn, args, nil, nil)
		e.explore(st)
		for _, f := range e.findings() {
			switch f.Cat {
			case "undecided":
				und = append(und, f)
			case "C09", "panic", "loop":
				fs = append(fs, f)
			}
		}
	}
	coverage["comment_collections_judged"] = judged
	if judged == 0 && len(fs) == 0 {
		miss("no return of the comment collections has been reached")
	}
	return
}

func checkC09(p *Program, tier string) (*Report, error) {
	t, err := tokReport(p, tier, tokRule+"At every return without an error the bodies hold the comments, and the signature of an rpc the embedded comments, that the specification demands; FindMidComments and GetScannedComments keep exactly the comments between two positions, once each and in order, by a loop invariant over what the code finds out about the current comment.", cats("C09"))
	if err != nil {
		return nil, err
	}
	fs, und, c := checkMid(p)
	for _, f := range fs {
		if f.Cat == "C09" || strings.HasPrefix(f.Msg, "a loop") {
			t.Findings = append(t.Findings, f)
		}
	}
	t.Undecided = append(t.Undecided, und...)
	for k, v := range c {
		t.cover(k, v)
	}
	return t, nil
}

func init() { checks["C09"] = Check{"other", checkC09} }

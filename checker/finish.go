package main

import (
	"go/token"
	"go/types"
)

// Finish implements Sem. It judges the outcome of an element parser.
func (s *TokSem) Finish(e *Engine, st *State, results []Val) {
	if s.done != nil {
		s.done(st, results)
		return
	}
	d := tokDom(st)
	s.Checks++
	pos := e.pos(st)
	errv := results[len(results)-1]
	if d.corrupt {
		e.report(st, "C15", pos, "text is put back that is not the last text read")
		return
	}
	lex, sc, ok := s.findLexer(st, d.self)
	if !ok {
		e.undecided(st, pos, "the lexer of the parser is not known")
		return
	}
	if m, ok := s.mode(st, sc); ok && m != 0 {
		e.report(st, "C16", pos, "the scanning mode is not restored")
	}
	if _, isNil := errv.(VNil); isNil {
		for _, x := range s.advanceTo(e, st, d.cur) {
			s.success(e, x, results, lex, pos)
		}
		return
	}
	s.failure(e, st, results, errv, pos)
}

func (s *TokSem) success(e *Engine, st *State, results []Val, lex VPtr, pos token.Pos) {
	d := tokDom(st)
	if d.ntFail != "" {
		e.report(st, "C01", pos, "the failure of parsing a %s is ignored", d.ntFail)
		return
	}
	if s.rootNT.optional {
		if _, isNil := results[0].(VNil); isNil {
			s.absent(e, st, pos)
			return
		}
	}
	if d.specPos == d.cur && s.rootNT.name == "Proto" && d.cur < len(d.items) && d.items[d.cur].cls.subset(s.lx.set("EOF")) {
		if sts := s.advanceTo(e, st, d.cur+1); len(sts) != 1 || sts[0] != st {
			for _, x := range sts {
				s.success(e, x, results, lex, pos)
			}
			return
		}
		d = tokDom(st)
	}
	rerr := s.lx.set("READERR")
	for i := range d.items {
		if i >= d.cur && s.rootNT.name != "Proto" {
			break
		}
		if it := &d.items[i]; it.kind == 'L' && it.known && !it.cls.empty() && it.cls.subset(rerr) {
			e.report(st, "C26", pos, "the source is accepted although reading it failed")
			return
		}
	}
	if d.dead {
		e.report(st, "C01", pos, "a %s is accepted that the grammar does not allow", s.rootNT.name)
		return
	}
	cur := d.cur
	for s.rootNT.name != "Proto" && cur > 0 && d.items[cur-1].kind == 'L' && d.items[cur-1].cls.subset(s.lx.set("EOF")) {
		cur--
	}
	acc, follow := s.accepting(s.nfa, d.cfgs, cur)
	if len(acc) == 0 {
		e.report(st, "C01", pos, "a %s is accepted that is not complete", s.rootNT.name)
		return
	}
	if s.rootNT.name != "Proto" && cur > 0 && d.items[cur-1].kind == 'C' {
		e.report(st, "C07", pos, "a comment behind the %s is taken away", s.rootNT.name)
	}
	if !follow.empty() {
		next := -1
		for i := cur; i < len(d.items); i++ {
			if d.items[i].kind == 'L' {
				next = i
				break
			}
		}
		if next < 0 {
			e.report(st, "C02", pos, "the %s is taken as complete without looking for %s", s.rootNT.name, s.lx.describe(follow))
			return
		}
		if x := d.items[next].cls.and(follow); !x.empty() {
			e.report(st, "C02", pos, "the %s is taken as complete although %s follows", s.rootNT.name, s.lx.describe(x))
			return
		}
	}
	// results
	var first []Mismatch
	matched := false
	lost := ""
	for i, c := range acc {
		m := &matcher{s: s, e: e, st: st}
		m.match(s.nfa.result(c.regs), results[0], "C03", s.rootNT.name)
		if len(m.out) == 0 && c.lost == "" {
			matched = true
			break
		}
		if len(m.out) == 0 && lost == "" {
			lost = c.lost
		}
		if i == 0 || (len(m.out) < len(first) && c.lost == "") {
			first = m.out
			if len(m.out) == 0 {
				first = []Mismatch{{c.lost, s.rootNT.name, "comments are not kept"}}
			}
		}
	}
	if !matched {
		if lost != "" {
			first = []Mismatch{{lost, s.rootNT.name, "a comment is lost"}}
		}
		for _, x := range first {
			e.report(st, x.cat, pos, "%s: %s", x.path, x.msg)
		}
	}
	s.lastLine(e, st, lex, pos)
}

// absent judges the outcome that an optional element is not there.
func (s *TokSem) absent(e *Engine, st *State, pos token.Pos) {
	d := tokDom(st)
	if d.cur != 0 {
		e.report(st, "C02", pos, "the absent %s takes something away", s.rootNT.name)
		return
	}
	for i := range d.items {
		if d.items[i].kind == 'L' {
			if x := d.items[i].cls.and(s.rootNT.first); !x.empty() {
				e.report(st, "C02", pos, "the %s is taken as absent although %s follows", s.rootNT.name, s.lx.describe(x))
			}
			return
		}
	}
	e.report(st, "C02", pos, "the %s is taken as absent without looking", s.rootNT.name)
}

// lastLine checks that the lexer is left on the line of the last lexeme: the caller looks for an inline comment there.
func (s *TokSem) lastLine(e *Engine, st *State, lex VPtr, pos token.Pos) {
	d := tokDom(st)
	if s.rootNT.name == "Proto" || s.rootNT.typ == nil {
		return
	}
	i := fieldIndex(s.lexType, "Pos")
	if i < 0 {
		return
	}
	v, ok := st.load(VPtr{lex.Obj, pathAdd(lex.Path, i)})
	if !ok {
		return
	}
	l, ok := posNum(s.posType, v, "Line")
	p, isPos := l.(VPos)
	if !ok || !isPos {
		e.report(st, "C08", pos, "the lexer is not left on the line of the last lexeme")
		return
	}
	last := d.cur - 1
	if p.Item != last || p.Kind == 'I' || (p.Kind == 'S' && d.items[last].kind == 'N') {
		e.report(st, "C08", pos, "the lexer is left on the line of %s instead of that of the last lexeme", s.showItem(d, p.Item))
	}
}

// failure judges an error.
func (s *TokSem) failure(e *Engine, st *State, results []Val, errv Val, pos token.Pos) {
	d := tokDom(st)
	switch r := results[0].(type) {
	case VNil:
	case VStr:
		if c, ok := constStr(r); !ok || c != "" {
			e.report(st, "C10", pos, "a text is returned with an error")
		}
	default:
		e.report(st, "C10", pos, "an element is returned with an error")
	}
	s.errorPos(e, st, errv, pos)
	if d.dead {
		return
	}
	// can what has been read be the beginning of a sentence?
	for _, x := range s.advanceTo(e, st.clone(), d.cur) {
		s.viable(e, x, pos)
	}
}

func (s *TokSem) errorPos(e *Engine, st *State, errv Val, pos token.Pos) {
	d := tokDom(st)
	i, ok := errv.(VIface)
	if !ok {
		e.report(st, "C10", pos, "the error is not known")
		return
	}
	if x, ok := i.V.(VErr); ok {
		if x.Kind == "nt" {
			return
		}
		for _, w := range x.Wraps {
			s.errorPos(e, st, w, pos)
			return
		}
		e.report(st, "C10", pos, "the error has no position")
		return
	}
	et := s.p.typ("parser/meta", "Error")
	if et == nil || !types.Identical(i.T, types.NewPointer(et)) {
		e.report(st, "C10", pos, "the error is a %s, which has no position", i.T)
		return
	}
	p, ok := i.V.(VPtr)
	if !ok {
		e.report(st, "C10", pos, "the error is nil")
		return
	}
	v, _ := st.load(p)
	x, ok := v.(VStruct)
	k := fieldIndex(et, "Pos")
	if !ok || k < 0 {
		e.report(st, "C10", pos, "the error has no position")
		return
	}
	pt := et.Underlying().(*types.Struct).Field(k).Type()
	if n, ok := posNum(pt, x.F[k], "Filename"); !ok || !sameVal(n, filenameVal) {
		e.report(st, "C29", pos, "the file name is not in the position of the error")
	}
	for _, name := range []string{"Offset", "Line", "Column"} {
		n, ok := posNum(pt, x.F[k], name)
		if !ok {
			continue
		}
		q, isPos := n.(VPos)
		if !isPos {
			if _, top := n.(VTop); top {
				if s.rootNT.name != "Proto" {
					continue // the position the parser was entered with
				}
			}
			e.report(st, "C10", pos, "the %s in the position of the error is %s", name, s.show(d, n))
			return
		}
		if q.Field != name[0] {
			e.report(st, "C10", pos, "the %s in the position of the error is the %s", name, s.showPos(d, q))
			return
		}
	}
}

type simPos struct {
	nfa  *NFA
	node int
	up   *simPos
}

// viable reports when the items that have been read can begin a sentence.
func (s *TokSem) viable(e *Engine, st *State, pos token.Pos) {
	d := tokDom(st)
	if d.dead || d.eofTaken || len(d.cfgs) == 0 {
		return
	}
	cats := "C02"
	bad := ""
	for _, c := range d.cfgs {
		if s.sim(d, &simPos{s.nfa, c.node, nil}, d.specPos, d.ntFail, 0) {
			bad = "the grammar allows what has been read"
			break
		}
	}
	if bad == "" {
		return
	}
	what := ""
	for i := d.specPos; i < len(d.items); i++ {
		if what != "" {
			what += " "
		}
		what += s.showItem(d, i)
	}
	if what == "" {
		what = "what has been read"
	}
	e.report(st, cats, pos, "a %s is refused although the grammar allows %s here", s.rootNT.name, what)
	var last *Item
	if n := len(d.items); n > 0 && d.specPos < n {
		last = &d.items[n-1]
	} else {
		for t := st.trace; t != nil && last == nil; t = t.prev {
			last = t.item
		}
	}
	if last != nil && last.kind == 'L' && last.cls.subset(s.lx.idents) && !s.lx.anyOf(last.cls, kIdent) {
		e.report(st, "C16", pos, "a %s is refused for the word %s although the grammar allows it here", s.rootNT.name, s.lx.describe(last.cls))
	}
}

// onlyComments tells whether the items from i to j are comments.
func (d *TokDom) onlyComments(i, j int) bool {
	for ; i < j; i++ {
		if d.items[i].kind != 'C' {
			return false
		}
	}
	return true
}

// sim tells whether the items from j can be read from the place. failed is
// the element that is known not to be there.
func (s *TokSem) sim(d *TokDom, q *simPos, j int, failed string, depth int) bool {
	if depth > 60 {
		return false
	}
	for j < len(d.items) && d.items[j].kind == 'C' {
		j++
	}
	if j >= len(d.items) && failed == "" {
		return true
	}
	n := &q.nfa.nodes[q.node]
	for _, t := range n.toks {
		if t.nt != "" {
			if j < len(d.items) && d.items[j].kind == 'N' {
				if t.nt == d.items[j].nt && s.sim(d, &simPos{q.nfa, t.to, q.up}, j+1, failed, depth+1) {
					return true
				}
				continue
			}
			if failed == t.nt && q.up == nil && j >= d.cur && d.onlyComments(d.cur, j) {
				continue
			}
			if j < len(d.items) && t.set.and(d.items[j].cls).empty() {
				continue
			}
			nt := s.ntByName[t.nt]
			if nt == nil {
				continue
			}
			if j >= len(d.items) {
				return true
			}
			if nt.nfa == nil {
				continue
			}
			if s.sim(d, &simPos{nt.nfa, nt.nfa.start, &simPos{q.nfa, t.to, q.up}}, j, failed, depth+1) {
				return true
			}
			continue
		}
		if j >= len(d.items) {
			// the failed element is not the only one possible
			return true
		}
		it := &d.items[j]
		if it.kind != 'L' || t.set.and(it.cls).empty() {
			continue
		}
		if t.part != it.part {
			if j == len(d.items)-1 {
				return true
			}
			continue
		}
		if s.sim(d, &simPos{q.nfa, t.to, q.up}, j+1, failed, depth+1) {
			return true
		}
	}
	for _, ep := range n.eps {
		if s.sim(d, &simPos{q.nfa, ep.to, q.up}, j, failed, depth+1) {
			return true
		}
	}
	if n.accept && q.up != nil {
		return s.sim(d, q.up, j, failed, depth+1)
	}
	return false
}

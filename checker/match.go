package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// NT is an element with a parser of its own.
type NT struct {
	name  string
	fn    *ssa.Function
	typ   types.Type // element type, nil for constants
	first CSet
	// optional elements may be absent: the parser then returns nil and no error
	optional bool
	nfa      *NFA
}

type move struct {
	acts  []Act
	to    int
	set   CSet
	lost  string
	loose bool
}

// moves are the ways the automaton can read an item from a node.
func (s *TokSem) moves(nfa *NFA, q int, it *Item, late bool) []move {
	var out []move
	var walk func(q int, acts []Act, lost, lead string, seen map[int]bool)
	walk = func(q int, acts []Act, lost, lead string, seen map[int]bool) {
		if seen[q] {
			return
		}
		seen[q] = true
		defer delete(seen, q)
		n := &nfa.nodes[q]
		if it.gap {
			for _, c := range n.cmts {
				if c.nl == 1 {
					// behind another comment there is no chance left
					if !late {
						lost = c.kind
					}
				} else {
					lead = c.kind
				}
			}
		}
		for _, t := range n.toks {
			if it.kind == 'N' {
				if t.nt != it.nt {
					continue
				}
			} else if t.nt != "" || t.part != it.part {
				continue
			}
			set := t.set.and(it.cls)
			if set.empty() {
				continue
			}
			m := move{to: t.to, set: set}
			m.acts = append(append([]Act(nil), acts...), t.act)
			if !t.loose {
				m.lost = lost
				if lead != "" && !t.drops {
					m.lost = lead
				}
			}
			out = append(out, m)
		}
		for _, ep := range n.eps {
			walk(ep.to, append(append([]Act(nil), acts...), ep.act), lost, lead, seen)
		}
	}
	walk(q, nil, "", "", map[int]bool{})
	return out
}

// cmoves are the ways the automaton can read a comment. Nodes that do not care stay.
func (s *TokSem) cmoves(nfa *NFA, q int, it *Item) []move {
	var walk func(q int, acts []Act, seen map[int]bool) []move
	walk = func(q int, acts []Act, seen map[int]bool) []move {
		if seen[q] {
			return nil
		}
		seen[q] = true
		n := &nfa.nodes[q]
		for _, c := range n.cmts {
			if c.nl == 0 || c.nl == it.nl {
				return []move{{acts: append(append([]Act(nil), acts...), c.act), to: c.to, lost: c.kind}}
			}
		}
		var out []move
		for _, ep := range n.eps {
			out = append(out, walk(ep.to, append(append([]Act(nil), acts...), ep.act), seen)...)
		}
		return out
	}
	return walk(q, nil, map[int]bool{})
}

func (s *TokSem) needsNL(nfa *NFA, q int, seen map[int]bool) bool {
	if seen[q] {
		return false
	}
	seen[q] = true
	for _, c := range nfa.nodes[q].cmts {
		if c.nl != 0 {
			return true
		}
	}
	for _, ep := range nfa.nodes[q].eps {
		if s.needsNL(nfa, ep.to, seen) {
			return true
		}
	}
	return false
}

func applyActs(c Cfg, acts []Act, item int) (Cfg, bool) {
	x := ActCtx{append([]EField(nil), c.regs...), item}
	ok := true
	for _, a := range acts {
		if a != nil && !a(&x) {
			ok = false
		}
	}
	c.regs = x.regs
	return c, ok
}

// stepOne moves the specification over the item at specPos. It returns the
// states the source splits into, nil when st itself has been moved.
func (s *TokSem) stepOne(e *Engine, st *State) []*State {
	d := tokDom(st)
	j := d.specPos
	it := &d.items[j]
	s.Commits++
	if d.dead {
		d.specPos++
		return nil
	}
	note := func() {
		c := d.items[j]
		st.trace = &Trace{prev: st.trace, item: &c}
	}
	if it.kind == 'C' {
		if it.nl == 0 {
			for _, c := range d.cfgs {
				if s.needsNL(s.nfa, c.node, map[int]bool{}) {
					o := st.clone()
					tokDom(o).items[j].nl = 2
					it.nl = 1
					return []*State{st, o}
				}
			}
		}
		var next []Cfg
		for _, c := range d.cfgs {
			ms := s.cmoves(s.nfa, c.node, it)
			if len(ms) == 0 {
				next = append(next, c)
			}
			for _, m := range ms {
				n, ok := applyActs(c, m.acts, j)
				n.node = m.to
				if !ok && n.lost == "" {
					n.lost = m.lost
				}
				next = append(next, n)
			}
		}
		d.cfgs = s.dedup(next)
		d.specPos++
		note()
		return nil
	}
	if s.rootNT != nil && s.rootNT.name != "Proto" && it.kind == 'L' && it.cls.subset(s.lx.set("EOF")) {
		// The end of the source can be read any number of times: taking it is the same as leaving it.
		d.eofTaken = true
		d.specPos++
		note()
		return nil
	}
	type cm struct {
		ci int
		m  move
	}
	var all []cm
	for i, c := range d.cfgs {
		for _, m := range s.moves(s.nfa, c.node, it, j > 0 && d.items[j-1].kind == 'C' && !it.cut) {
			all = append(all, cm{i, m})
		}
	}
	groups, _ := s.lx.partition(it.cls, func(c int) string {
		var k strings.Builder
		for i, x := range all {
			if x.m.set.has(c) {
				fmt.Fprintf(&k, "%d,", i)
			}
		}
		return k.String()
	})
	if len(groups) > 1 {
		return splitCls(st, j, groups)
	}
	var next []Cfg
	for _, x := range all {
		n, _ := applyActs(d.cfgs[x.ci], x.m.acts, j)
		n.node = x.m.to
		if n.lost == "" {
			n.lost = x.m.lost
		}
		next = append(next, n)
	}
	d.cfgs = s.dedup(next)
	d.specPos++
	note()
	if len(d.cfgs) == 0 {
		d.dead = true
		what := s.lx.describe(it.cls)
		if it.kind == 'N' {
			what = "a " + it.nt
		}
		st.note(e.pos(st), "the grammar does not allow %s here", what)
	}
	return nil
}

// ItemNote describes an item of the source.
func (s *TokSem) ItemNote(it *Item) string {
	r := ""
	switch it.nl {
	case 1:
		r = " on the same line"
	case 2:
		r = " on a new line"
	}
	switch it.kind {
	case 'C':
		return "source: a comment" + r
	case 'N':
		return "source: " + it.nt
	}
	if it.gap {
		r += " (comments may precede)"
	}
	return "source: " + s.lx.describe(it.cls) + r
}

func (s *TokSem) dedup(cs []Cfg) []Cfg {
	seen := map[string]bool{}
	var r []Cfg
	for _, c := range cs {
		var b Enc
		b.ints(c.node)
		b.WriteString(c.lost)
		encFields(c.regs, &b)
		k := b.String()
		if !seen[k] {
			seen[k] = true
			r = append(r, c)
		}
	}
	return r
}

// advanceTo moves the specification up to an item. It returns the states
// that result; states that were split have to be continued.
func (s *TokSem) advanceTo(e *Engine, st *State, lim int) []*State {
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		d := tokDom(x)
		if d.specPos >= lim {
			out = append(out, x)
			continue
		}
		if sts := s.stepOne(e, x); sts != nil {
			work = append(work, sts...)
		} else {
			work = append(work, x)
		}
	}
	return out
}

// accepting returns the configurations that can end here, with the lexemes that could still follow.
func (s *TokSem) accepting(nfa *NFA, cfgs []Cfg, item int) ([]Cfg, CSet) {
	var out []Cfg
	var follow CSet
	for _, c := range cfgs {
		acc := false
		var toks CSet
		var walk func(q int, acts []Act, seen map[int]bool)
		walk = func(q int, acts []Act, seen map[int]bool) {
			if seen[q] {
				return
			}
			seen[q] = true
			n := &nfa.nodes[q]
			if n.accept {
				r, _ := applyActs(c, acts, item)
				r.node = q
				out = append(out, r)
				acc = true
			}
			for _, t := range n.toks {
				toks = toks.or(t.set)
			}
			for _, ep := range n.eps {
				walk(ep.to, append(append([]Act(nil), acts...), ep.act), seen)
			}
		}
		walk(c.node, nil, map[int]bool{})
		if acc {
			follow = follow.or(toks)
		}
	}
	return out, follow
}

// callNT is the contract of a parser of an element.
func (s *TokSem) callNT(e *Engine, st *State, site ssa.CallInstruction, nt *NT, args []Val) []Out {
	d := tokDom(st)
	lex, sc, ok := s.findLexer(st, args[0])
	if !ok {
		e.undecided(st, site.Pos(), "the lexer of the parser is not known")
		return nil
	}
	if d.corrupt {
		e.report(st, "C15", site.Pos(), "the scanner reads on although text was put back that is not the last text read")
		return nil
	}
	if d.ntFail != "" {
		e.report(st, "C15", site.Pos(), "the scanner reads on after parsing a %s has failed, at an unknown place", d.ntFail)
		return nil
	}
	if m, ok := s.mode(st, sc); !ok {
		e.undecided(st, site.Pos(), "the scanning mode is not known")
		return nil
	} else if m != 0 {
		e.report(st, "C16", site.Pos(), "the %s parser is entered with a special scanning mode set", nt.name)
		return nil
	}
	j := d.cur
	for j < len(d.items) && d.items[j].kind == 'C' {
		j++
	}
	gap, nl, cls := true, int8(0), s.lx.all
	if j < len(d.items) {
		gap, nl, cls = d.items[j].gap, d.items[j].nl, d.items[j].cls
		if d.items[j].kind != 'L' {
			e.undecided(st, site.Pos(), "a parsed statement is parsed again")
			return nil
		}
	} else if j > 0 && d.items[j-1].kind == 'L' {
		end := s.lx.set("EOF", "READERR")
		if d.items[j-1].cls.subset(end) {
			cls = d.items[j-1].cls
		}
	}
	setLexer := func(x *State, pos Val) {
		t := s.lexType.Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			var v Val
			switch {
			case f.Name() == "Token":
				v = VTop{}
			case f.Name() == "Text":
				v = unknownStr
			case f.Name() == "RawText":
				v = VRaw{}
			case f.Name() == "Pos":
				v = pos
			default:
				continue
			}
			n, ok := setPath(x.heap[lex.Obj], append(pathSplit(lex.Path), i), v)
			if ok {
				x.heap[lex.Obj] = n
			}
		}
	}
	var outs []Out
	fail := func(x *State) {
		dx := tokDom(x)
		dx.ntFail = nt.name
		setLexer(x, s.buildPos(s.posType, s.filename(x, sc), func(f byte) Val { return VPos{j, 'I', f} }))
		x.note(site.Pos(), "parsing a %s fails", nt.name)
		var r Val = VNil{}
		if nt.typ == nil {
			r = VStr{}
		}
		outs = append(outs, Out{x, s.ntResult(nt, r, newErr("nt"))})
	}
	in := cls.and(nt.first)
	rest := cls.minus(nt.first)
	if nt.optional {
		if !in.empty() {
			x := st.clone()
			if j < len(d.items) {
				tokDom(x).items[j].cls = in
			}
			fail(x)
		}
		if !rest.empty() {
			x := st.clone()
			if j < len(d.items) {
				tokDom(x).items[j].cls = rest
			} else {
				dx := tokDom(x)
				dx.items = append(dx.items, Item{kind: 'L', cls: rest, gap: gap, nl: nl})
			}
			dx := tokDom(x)
			dx.rawOK = false
			setLexer(x, s.buildPos(s.posType, s.filename(x, sc), func(f byte) Val { return VTop{} }))
			outs = append(outs, Out{x, s.ntResult(nt, VNil{}, VNil{})})
		}
	} else {
		fail(st.clone())
	}
	if !in.empty() {
		x := st.clone()
		s.truncate(e, x, j)
		dx := tokDom(x)
		dx.items = append(dx.items, Item{kind: 'N', cls: in, gap: gap, nl: nl, nt: nt.name, known: true})
		dx.cur = j + 1
		dx.rawOK = false
		x.note(site.Pos(), "a %s is parsed", nt.name)
		fname := s.filename(x, sc)
		setLexer(x, s.buildPos(s.posType, fname, func(f byte) Val {
			if f == 'L' {
				return VPos{j, 'E', f}
			}
			return VTop{}
		}))
		var r Val
		if nt.typ == nil {
			r = VStr{[]Val{VNTText{j}}}
		} else {
			u := nt.typ.Underlying().(*types.Struct)
			f := make([]Val, u.NumFields())
			for i := range f {
				switch u.Field(i).Name() {
				case "Comments", "InlineComment":
					f[i] = VNil{}
				default:
					f[i] = VNTF{j, i}
				}
			}
			r = VPtr{x.alloc(VStruct{f}), ""}
		}
		outs = append(outs, Out{x, s.ntResult(nt, r, VNil{})})
	}
	return outs
}

// ntResult arranges the results of an element parser.
func (s *TokSem) ntResult(nt *NT, r, err Val) Val {
	res := nt.fn.Signature.Results()
	f := make([]Val, res.Len())
	for i := range f {
		f[i] = unknownType(res.At(i).Type())
	}
	f[0] = r
	f[len(f)-1] = err
	return VTuple{f}
}

// findLexer follows the fields of the parser to the lexer and its scanner.
func (s *TokSem) findLexer(st *State, p Val) (lex, sc VPtr, ok bool) {
	find := func(v Val, t types.Type) (VPtr, bool) {
		ptr, isPtr := v.(VPtr)
		if !isPtr {
			return VPtr{}, false
		}
		x, _ := st.load(ptr)
		var walk func(x Val) (VPtr, bool)
		walk = func(x Val) (VPtr, bool) {
			switch y := x.(type) {
			case VPtr:
				if s.objType(st, y, t) {
					return y, true
				}
			case VStruct:
				for _, f := range y.F {
					if r, ok := walk(f); ok {
						return r, true
					}
				}
			case VIface:
				return walk(y.V)
			}
			return VPtr{}, false
		}
		return walk(x)
	}
	lex, ok = find(p, s.lexType)
	if !ok {
		return
	}
	sc, ok = find(lex, s.scnType)
	return
}

// objType tells whether the pointer refers to a value of a struct type, by its shape.
func (s *TokSem) objType(st *State, p VPtr, t types.Type) bool {
	v, ok := st.load(p)
	if !ok {
		return false
	}
	x, ok := v.(VStruct)
	return ok && len(x.F) == t.Underlying().(*types.Struct).NumFields()
}

// catOf is the property a field of an element belongs to.
func catOf(typ, field string) string {
	switch {
	case typ == "Proto" && field == "Meta", typ == "ProtoMeta", field == "Filename":
		return "C29"
	case field == "Meta", field == "Pos", field == "LastPos":
		return "C06"
	case field == "EmbeddedComments":
		return "C09"
	case field == "Comments":
		return "C07"
	case strings.HasPrefix(field, "InlineComment"):
		return "C08"
	case strings.HasSuffix(field, "Body"), field == "Ranges", field == "FieldNames", field == "Declarations", field == "OneofFields":
		return "C05"
	case strings.HasPrefix(field, "Option"), strings.HasSuffix(field, "Options"), field == "Constant":
		return "C04"
	}
	return "C03"
}

// Mismatch tells where an element differs from the expected one.
type Mismatch struct{ cat, path, msg string }

type matcher struct {
	s   *TokSem
	e   *Engine
	st  *State
	out []Mismatch
}

var optionStatements = regexp.MustCompile(`^(RPC|Oneof)\.Options(\[\d+\])?$`)

func (m *matcher) bad(cat, path, format string, args ...interface{}) {
	m.out = append(m.out, Mismatch{cat, path, fmt.Sprintf(format, args...)})
	if cat == "C04" && optionStatements.MatchString(path) {
		// the options of an rpc or of a oneof are statements of its body
		m.out = append(m.out, Mismatch{"C05", path, fmt.Sprintf(format, args...)})
	}
}

func unwrap(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

func (s *TokSem) astType(name string) types.Type {
	if name == "Meta" {
		if t := s.p.typ("parser/meta", "Meta"); t != nil {
			return t
		}
		return nil
	}
	if t := s.p.typ("parser", name); t != nil {
		return t
	}
	return nil
}

// match compares an expected value with an actual one.
func (m *matcher) match(exp, act Val, cat, path string) {
	act = unwrap(act)
	d := tokDom(m.st)
	switch x := exp.(type) {
	case nil:
		m.bad(cat, path, "nothing is expected")
	case VLost:
		if x.What == "any" {
			return
		}
		m.bad(cat, path, "the source's %s is not kept", x.What)
	case EAlt:
		var first []Mismatch
		for i, a := range x.V {
			sub := &matcher{s: m.s, e: m.e, st: m.st}
			sub.match(a, act, cat, path)
			if len(sub.out) == 0 {
				return
			}
			if i == 0 {
				first = sub.out
			}
		}
		m.out = append(m.out, first...)
	case VStr:
		a, ok := act.(VStr)
		if !ok {
			m.bad(cat, path, "is not the expected text %s", m.s.show(d, x))
			return
		}
		if !sameVal(m.s.normStr(d, x), m.s.normStr(d, a)) {
			m.bad(cat, path, "is %s instead of %s", m.s.show(d, a), m.s.show(d, x))
		}
	case VAgr:
		if !sameVal(x, act) {
			m.bad(cat, path, "is %s instead of the expected object", m.s.show(d, act))
		}
	case VArr:
		m.list(x.E, act, cat, path)
	case EMid:
		m.mid(x, act, cat, path)
	case EPos:
		m.pos(x, act, path)
	case EObj:
		t := m.s.astType(x.Type)
		if t == nil {
			m.bad(cat, path, "the type %s cannot be found", x.Type)
			return
		}
		if p, ok := act.(VPtr); ok {
			act, _ = m.st.load(p)
		}
		a, ok := act.(VStruct)
		u := t.Underlying().(*types.Struct)
		if !ok || len(a.F) != u.NumFields() {
			m.bad(cat, path, "is not a %s", x.Type)
			return
		}
		m.fields(x.Type, u, x.F, a, path, func(i int) Val { return nil })
	case ENT:
		nt := m.s.ntByName[d.items[x.Item].nt]
		if p, ok := act.(VPtr); ok {
			act, _ = m.st.load(p)
		}
		a, ok := act.(VStruct)
		u := nt.typ.Underlying().(*types.Struct)
		if !ok || len(a.F) != u.NumFields() {
			m.bad(cat, path, "is not the parsed %s", nt.name)
			return
		}
		m.fields(nt.name, u, x.F, a, path, func(i int) Val {
			switch u.Field(i).Name() {
			case "Comments", "InlineComment":
				return nil
			}
			return VNTF{x.Item, i}
		})
	default:
		if !sameVal(exp, act) {
			m.bad(cat, path, "is %s instead of %s", m.s.show(d, act), m.s.show(d, exp))
		}
	}
}

func (m *matcher) fields(typ string, u *types.Struct, fs []EField, a VStruct, path string, def func(i int) Val) {
	d := tokDom(m.st)
	known := map[string]bool{}
	for i := 0; i < u.NumFields(); i++ {
		name := u.Field(i).Name()
		known[name] = true
		cat := catOf(typ, name)
		p := path + "." + name
		var exp Val
		for _, f := range fs {
			if f.Name == name {
				exp = f.V
			}
		}
		if exp != nil {
			m.match(exp, a.F[i], cat, p)
			continue
		}
		if x := def(i); x != nil {
			if !sameVal(a.F[i], x) {
				m.bad(cat, p, "is changed to %s", m.s.show(d, a.F[i]))
			}
			continue
		}
		if !u.Field(i).Exported() {
			continue
		}
		if !m.isZero(a.F[i], u.Field(i).Type()) {
			m.bad(cat, p, "is %s although nothing in the source calls for it", m.s.show(d, a.F[i]))
		}
	}
	for _, f := range fs {
		if !known[f.Name] {
			m.bad(catOf(typ, f.Name), path+"."+f.Name, "the field does not exist")
		}
	}
}

func (m *matcher) isZero(v Val, t types.Type) bool {
	if sameVal(v, zeroVal(t)) {
		return true
	}
	if its, ok := m.e.items(m.st, v); ok && len(its) == 0 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return false
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			return false
		}
		for i := range s.F {
			if !m.isZero(s.F[i], u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *matcher) list(exp []Val, act Val, cat, path string) {
	its, ok := m.e.items(m.st, act)
	if !ok {
		m.bad(cat, path, "is not a known list")
		return
	}
	its = rejoin(its)
	if len(exp) == len(its) {
		n := len(m.out)
		for i := range exp {
			m.match(exp[i], its[i], m.elemCat(cat, exp[i], its[i]), fmt.Sprintf("%s[%d]", path, i))
		}
		// a comment in a body belongs to the body comments
		_ = n
		return
	}
	c := cat
	if cat == "C05" && m.commentsDiffer(exp, its) {
		c = "C09"
	}
	m.bad(c, path, "has the wrong elements: %s instead of %s", m.s.showList(tokDom(m.st), its), m.s.showList(tokDom(m.st), exp))
}

func isCommentExp(v Val) bool {
	o, ok := v.(EObj)
	return ok && o.Type == "Comment"
}

func (m *matcher) elemCat(cat string, exp, act Val) string {
	if cat == "C05" && isCommentExp(exp) {
		return "C09"
	}
	return cat
}

// commentsDiffer tells whether only the comments make the lists different.
func (m *matcher) commentsDiffer(exp, its []Val) bool {
	var a, b int
	for _, x := range exp {
		if !isCommentExp(x) {
			if _, ok := x.(VLam); !ok {
				a++
			}
		}
	}
	ct := m.s.p.typ("parser", "Comment")
	for _, x := range its {
		if i, ok := x.(VIface); ok && ct != nil && types.Identical(i.T, types.NewPointer(ct)) {
			continue
		}
		if _, ok := x.(VLam); ok {
			continue
		}
		b++
	}
	return a == b
}

func (m *matcher) mid(x EMid, act Val, cat, path string) {
	its, ok := m.e.items(m.st, act)
	if !ok {
		m.bad(cat, path, "is not a known list")
		return
	}
	if len(its) == 0 {
		// nothing between the positions: the list may only be empty if the loop found none
		if act == nil {
			m.bad(cat, path, "is missing")
		}
		if !m.emptyMid(x) {
			m.bad(cat, path, "is empty although there may be comments")
		}
		return
	}
	if len(its) != 1 {
		m.bad(cat, path, "has the wrong elements")
		return
	}
	mp, ok := its[0].(VMapped)
	if !ok {
		m.bad(cat, path, "does not hold the comments in between")
		return
	}
	src, ok := mp.Src.(VMid)
	if !ok {
		m.bad(cat, path, "does not hold the comments in between")
		return
	}
	sub := &matcher{s: m.s, e: m.e, st: m.st}
	sub.pos(x.From, src.From, path)
	sub.pos(x.To, src.To, path)
	if len(sub.out) > 0 {
		m.bad(cat, path, "does not hold the comments between the right positions: %s", sub.out[0].msg)
	}
	el := src.Element()
	want := m.s.commentTmpl(el)
	if !sameVal(mp.Tmpl, want) {
		m.bad(cat, path, "the comments are not built from the scanned ones: %s instead of %s", encStr(mp.Tmpl), encStr(want))
	}
}

// emptyMid: the empty outcome of the iteration has been recorded in the state.
func (m *matcher) emptyMid(x EMid) bool {
	for _, n := range tokDom(m.st).noMid {
		v, ok := n.(VMid)
		if !ok {
			continue
		}
		sub := &matcher{s: m.s, e: m.e, st: m.st}
		sub.pos(x.From, v.From, "")
		sub.pos(x.To, v.To, "")
		if len(sub.out) == 0 {
			return true
		}
	}
	return false
}

// pos compares a position.
func (m *matcher) pos(x EPos, act Val, path string) {
	d := tokDom(m.st)
	var offs Val
	one := func(f byte, v Val, name string) {
		p, ok := v.(VPos)
		if !ok {
			m.bad("C06", path, "%s is %s instead of the %s", name, m.s.show(d, v), m.s.showPos(d, VPos{x.Item, x.Kind, f}))
			return
		}
		k := p.Kind
		if k != x.Kind && p.Item == x.Item && (k == 'S' || k == 'E') && m.s.oneChar(d, x.Item) {
			k = x.Kind
		}
		if p.Item != x.Item || k != x.Kind || p.Field != f {
			m.bad("C06", path, "%s is the %s instead of the %s", name, m.s.showPos(d, p), m.s.showPos(d, VPos{x.Item, x.Kind, f}))
		}
	}
	_ = offs
	var walk func(t types.Type, v Val)
	walk = func(t types.Type, v Val) {
		u, ok := t.Underlying().(*types.Struct)
		s, ok2 := v.(VStruct)
		if !ok || !ok2 || u.NumFields() != len(s.F) {
			m.bad("C06", path, "is %s instead of the position of the %s", m.s.show(d, v), m.s.showPos(d, VPos{x.Item, x.Kind, 'O'}))
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Filename":
				if !sameVal(s.F[i], filenameVal) {
					m.bad("C29", path, "the file name is %s", m.s.show(d, s.F[i]))
				}
			case "Offset":
				one('O', s.F[i], "the offset")
			case "Line":
				one('L', s.F[i], "the line")
			case "Column":
				one('C', s.F[i], "the column")
			default:
				if u.Field(i).Embedded() {
					walk(u.Field(i).Type(), s.F[i])
				}
			}
		}
	}
	t := types.Type(m.s.p.typ("parser/meta", "Position"))
	if s, ok := act.(VStruct); ok && len(s.F) == m.s.posType.Underlying().(*types.Struct).NumFields() && len(s.F) != t.Underlying().(*types.Struct).NumFields() {
		t = m.s.posType
	}
	walk(t, act)
}

// oneChar tells whether the item is a single character.
func (s *TokSem) oneChar(d *TokDom, i int) bool {
	if i < 0 || i >= len(d.items) || d.items[i].kind != 'L' {
		return false
	}
	if d.items[i].part {
		return true
	}
	t, ok := s.lx.fixedText(d.items[i].cls, false)
	if !ok {
		// sets of single characters
		for c := range s.lx.cls {
			if d.items[i].cls.has(c) {
				t, ok := s.lx.classText(c, false)
				if !ok || len([]rune(t)) != 1 {
					return false
				}
			}
		}
		return true
	}
	return len([]rune(t)) == 1
}

func (s *TokSem) showPos(d *TokDom, p VPos) string {
	f := map[byte]string{'O': "offset", 'L': "line", 'C': "column"}[p.Field]
	k := map[byte]string{'S': "of the start of", 'E': "of the end of", 'A': "behind", 'I': "somewhere inside"}[p.Kind]
	return fmt.Sprintf("%s %s %s", f, k, s.showItem(d, p.Item))
}

func (s *TokSem) showItem(d *TokDom, i int) string {
	if i < 0 || i >= len(d.items) {
		return "what was read before"
	}
	it := &d.items[i]
	switch it.kind {
	case 'C':
		return "a comment"
	case 'N':
		return "the " + it.nt
	}
	return "'" + s.lx.describe(it.cls) + "'"
}

// show describes a value for a person.
func (s *TokSem) show(d *TokDom, v Val) string {
	switch x := v.(type) {
	case nil:
		return "nothing"
	case VNil:
		return "nil"
	case VTop:
		return "an unknown value"
	case VBool, VInt:
		return fmt.Sprint(x)
	case VStr:
		if len(x.P) == 0 {
			return `""`
		}
		var r []string
		for _, p := range x.P {
			switch q := p.(type) {
			case VConstStr:
				r = append(r, fmt.Sprintf("%q", string(q)))
			case VTxt:
				r = append(r, "text of "+s.showItem(d, q.Item))
			case VInner:
				r = append(r, "contents of "+s.showItem(d, q.Item))
			case VReq:
				r = append(r, "requoted contents of "+s.showItem(d, q.Item))
			case VNTText:
				r = append(r, "the constant")
			case VSig:
				r = append(r, "the text so far")
			case VTop:
				r = append(r, "unknown text")
			case VOpaque:
				r = append(r, "the "+q.Name)
			default:
				r = append(r, encStr(p))
			}
		}
		return strings.Join(r, " + ")
	case VPos:
		return s.showPos(d, x)
	case VPtr:
		return "an element"
	case VIface:
		return s.show(d, x.V)
	case EObj:
		return "a " + x.Type
	case ENT:
		if x.Item < len(d.items) {
			return "the " + d.items[x.Item].nt
		}
	case VNTF:
		if x.Item < len(d.items) {
			if nt := s.ntByName[d.items[x.Item].nt]; nt != nil && nt.typ != nil {
				return "the " + nt.typ.Underlying().(*types.Struct).Field(x.Field).Name() + " of the " + nt.name
			}
		}
	case VLam:
		return "the elements so far"
	case VSlice:
		return "a list"
	case VStruct:
		return "a struct"
	}
	return encStr(v)
}

func (s *TokSem) showList(d *TokDom, vs []Val) string {
	var r []string
	for i, v := range vs {
		if i > 5 {
			r = append(r, "...")
			break
		}
		r = append(r, s.show(d, v))
	}
	return "[" + strings.Join(r, ", ") + "]"
}

// commentTmpl is the comment built of a scanned comment.
func (s *TokSem) commentTmpl(el Val) Val {
	t := s.p.typ("parser", "Comment").Underlying().(*types.Struct)
	mt := s.p.typ("parser/meta", "Meta").Underlying().(*types.Struct)
	tt := s.txtType.Underlying().(*types.Struct)
	lit, pos := -1, -1
	for i := 0; i < tt.NumFields(); i++ {
		switch tt.Field(i).Name() {
		case "Literal":
			lit = i
		case "Pos":
			pos = i
		}
	}
	f := make([]Val, t.NumFields())
	for i := range f {
		switch t.Field(i).Name() {
		case "Raw":
			f[i] = VStr{[]Val{VElemF{el, fmt.Sprintf(".%d", lit)}}}
		case "Meta":
			g := make([]Val, mt.NumFields())
			for k := range g {
				prefix := "S"
				if mt.Field(k).Name() == "LastPos" {
					prefix = "E"
				}
				g[k] = s.metaPos(el, prefix, pos)
			}
			f[i] = VStruct{g}
		default:
			f[i] = zeroVal(t.Field(i).Type())
		}
	}
	return VTPtr{VStruct{f}}
}

// metaPos is the plain position (meta.Position) of a scanned comment.
func (s *TokSem) metaPos(el Val, kind string, _ int) Val {
	return s.buildPos(s.p.typ("parser/meta", "Position"), filenameVal, func(f byte) Val { return VElemF{el, kind + string([]byte{f})} })
}

// VTPtr is a pointer to a fresh object in a template.
type VTPtr struct{ V Val }

// Map implements DomVal.
func (v VTPtr) Map(m *Mapper) Val { return VTPtr{mapVal(v.V, m)} }

// Enc implements DomVal.
func (v VTPtr) Enc(b *Enc) { b.WriteString("tp"); b.val(v.V) }

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The token domain abstracts the source by the sequence of lexemes, comments and
// already parsed statements that the parser has met. The scanner is replaced by
// its lexical contract (Lex.read); that the scanner keeps the contract is
// decided separately.

// Item is a part of the source.
type Item struct {
	kind  byte // 'L' lexeme, 'C' comment, 'N' parsed statement or constant
	cls   CSet // the lexemes it can be; for 'N' those it can begin with
	gap   bool // comments that have not been looked for may precede
	nl    int8 // line break between the item before and this one: 0 unknown, 1 no, 2 yes
	part  bool // only its first character is read
	errd  bool // reading it failed
	cut   bool // items before it have been dropped
	nt    string
	known bool // it has been read
}

// TokDom is the state of the token domain.
type TokDom struct {
	items        []Item
	cur          int
	rawLo, rawHi int
	rawOK        bool
	corrupt      bool // text was put back that was not the last text read
	ntFail       string
	specPos      int
	cfgs         []Cfg
	dead         bool // no sentence begins like this
	eofTaken     bool // the end of the source has been taken (an element)
	nlam         int
	self         Val   // the parser
	noMid        []Val // the lists of comments that have been found empty
}

// Cfg is a state of the specification.
type Cfg struct {
	node int
	regs []EField
	lost string // the property that is broken because comments were skipped
}

// Clone implements Dom.
func (d *TokDom) Clone() Dom {
	n := *d
	n.items = append(make([]Item, 0, len(d.items)+2), d.items...)
	n.cfgs = append([]Cfg(nil), d.cfgs...)
	n.noMid = append([]Val(nil), d.noMid...)
	return &n
}

// Vals implements Dom.
func (d *TokDom) Vals(f func(Val) Val) {
	for i := range d.cfgs {
		r := make([]EField, len(d.cfgs[i].regs))
		for k, g := range d.cfgs[i].regs {
			r[k] = EField{g.Name, f(g.V)}
		}
		d.cfgs[i].regs = r
	}
	if d.self != nil {
		d.self = f(d.self)
	}
	for i := range d.noMid {
		d.noMid[i] = f(d.noMid[i])
	}
}

// Enc implements Dom.
func (d *TokDom) Enc(b *Enc) {
	d.EncMasked(b)
	for _, v := range d.Vec() {
		for _, w := range v {
			b.ints(int(w))
		}
	}
}

// Vec implements Joinable.
func (d *TokDom) Vec() []CSet {
	r := make([]CSet, 0, 2*len(d.items))
	for i := range d.items {
		it := &d.items[i]
		x := CSet{1}
		switch it.nl {
		case 0:
			x[0] = 3
		case 2:
			x[0] = 2
		}
		y := CSet{1}
		if it.gap {
			y[0] = 3
		}
		r = append(r, it.cls, x, y)
	}
	return r
}

// SetVec implements Joinable.
func (d *TokDom) SetVec(v []CSet) {
	for i := range d.items {
		it := &d.items[i]
		it.cls = v[3*i]
		it.nl = int8(v[3*i+1][0] % 3)
		it.gap = v[3*i+2][0] == 3
	}
}

// EncMasked implements Joinable.
func (d *TokDom) EncMasked(b *Enc) {
	b.WriteString("\nT")
	b.ints(d.cur, d.rawLo, d.rawHi, d.specPos)
	b.bools(d.rawOK, d.corrupt, d.dead, d.eofTaken)
	b.WriteString(d.ntFail)
	for i := range d.items {
		it := &d.items[i]
		b.WriteByte(it.kind)
		b.bools(it.part, it.errd, it.cut, it.known)
		b.WriteString(it.nt)
	}
	for _, c := range d.cfgs {
		b.ints(c.node)
		b.WriteString(c.lost)
		encFields(c.regs, b)
	}
	b.val(d.self)
	b.vals(d.noMid)
}

// TokSem is the semantics of the token domain.
type TokSem struct {
	BaseSem
	lx       *Lex
	p        *Program
	nfa      *NFA
	nts      map[*ssa.Function]*NT
	ntByName map[string]*NT
	guards   []guardRec
	lexType  types.Type
	scnType  types.Type
	cfgName  string
	quiet    bool // only the final state is wanted
	done     func(st *State, results []Val)
	root     *ssa.Function
	rootNT   *NT
	perm     bool
	body     bool
	fns      map[*ssa.Function]string // scanner primitives
	posType  types.Type               // scanner.Position
	txtType  types.Type               // scanner.Text
	Reads    int
	Checks   int
	Commits  int
	Folds    int
}

func tokDom(st *State) *TokDom { return st.dom.(*TokDom) }

// insertItem makes room for an item before index j.
func (s *TokSem) insertItem(e *Engine, st *State, j int, it Item) {
	d := tokDom(st)
	m := &Mapper{Item: func(i int) int {
		if i >= j {
			return i + 1
		}
		return i
	}, Bound: func(b int) int {
		if b > j {
			return b + 1
		}
		return b
	}}
	st.mapAll(m)
	e.mapHeap(st, m)
	d.items = append(d.items, Item{})
	copy(d.items[j+1:], d.items[j:])
	d.items[j] = it
	if d.cur > j {
		d.cur++
	}
	if d.rawLo > j {
		d.rawLo++
	}
	if d.rawHi > j {
		d.rawHi++
	}
	if d.specPos > j {
		d.specPos++
	}
}

// truncate forgets the items from index j.
func (s *TokSem) truncate(e *Engine, st *State, j int) {
	d := tokDom(st)
	if j >= len(d.items) {
		return
	}
	m := &Mapper{Item: func(i int) int {
		if i >= j {
			return -1
		}
		return i
	}, Bound: func(b int) int {
		if b > j {
			return -1
		}
		return b
	}}
	st.mapAll(m)
	e.mapHeap(st, m)
	d.items = d.items[:j]
	if d.rawHi > j || d.rawLo > j {
		d.rawOK = false
	}
}

// splitCls returns copies of st in which the item has one of the class groups.
func splitCls(st *State, item int, groups []CSet) []*State {
	var r []*State
	for _, g := range groups {
		if g.empty() {
			continue
		}
		n := st.clone()
		tokDom(n).items[item].cls = g
		r = append(r, n)
	}
	return r
}

// partition groups the classes of a set by a key, in the order of appearance.
func (lx *Lex) partition(s CSet, key func(c int) string) ([]CSet, []string) {
	idx := map[string]int{}
	var sets []CSet
	var keys []string
	for c := range lx.cls {
		if !s.has(c) {
			continue
		}
		k := key(c)
		i, ok := idx[k]
		if !ok {
			i = len(sets)
			idx[k] = i
			sets = append(sets, CSet{})
			keys = append(keys, k)
		}
		sets[i] = sets[i].with(c)
	}
	return sets, keys
}

func (s *TokSem) namedField(t types.Type, name string) int { return fieldIndex(t, name) }

// posVal is the position struct (scanner.Position) of an item.
func (s *TokSem) posVal(st *State, sc Val, item int, kind byte) Val {
	mk := func(f byte) Val { return VPos{item, kind, f} }
	return s.buildPos(s.posType, s.filename(st, sc), mk)
}

func (s *TokSem) buildPos(t types.Type, filename Val, mk func(f byte) Val) Val {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return VTop{}
	}
	f := make([]Val, u.NumFields())
	for i := range f {
		ft := u.Field(i).Type()
		switch u.Field(i).Name() {
		case "Filename":
			f[i] = filename
		case "Offset":
			f[i] = mk('O')
		case "Line":
			f[i] = mk('L')
		case "Column":
			f[i] = mk('C')
		default:
			if _, ok := ft.Underlying().(*types.Struct); ok {
				f[i] = s.buildPos(ft, filename, mk)
			} else {
				f[i] = VOpaque{"position." + u.Field(i).Name()}
			}
		}
	}
	return VStruct{f}
}

// posNum finds the number of a position struct.
func posNum(t types.Type, v Val, name string) (Val, bool) {
	u, ok := t.Underlying().(*types.Struct)
	s, ok2 := v.(VStruct)
	if !ok || !ok2 {
		return nil, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.F[i], true
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if r, ok := posNum(u.Field(i).Type(), s.F[i], name); ok {
				return r, true
			}
		}
	}
	return nil, false
}

// filename is the file name the scanner puts into positions.
func (s *TokSem) filename(st *State, sc Val) Val {
	p, ok := sc.(VPtr)
	if !ok {
		return unknownStr
	}
	t := s.p.typ("lexer/scanner", "Scanner")
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return unknownStr
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		v, ok := st.load(VPtr{p.Obj, pathAdd(p.Path, i)})
		if !ok {
			continue
		}
		if pt, ok := ft.(*types.Pointer); ok && types.Identical(pt.Elem(), s.posType) {
			q, ok := v.(VPtr)
			if !ok {
				continue
			}
			v, _ = st.load(q)
			ft = pt.Elem()
		}
		if types.Identical(ft, s.posType) {
			if n, ok := posNum(ft, v, "Filename"); ok {
				return n
			}
		}
	}
	return unknownStr
}

func (s *TokSem) mode(st *State, sc Val) (int64, bool) {
	p, ok := sc.(VPtr)
	if !ok {
		return 0, false
	}
	i := fieldIndex(s.p.typ("lexer/scanner", "Scanner"), "Mode")
	if i < 0 {
		return 0, false
	}
	v, ok := st.load(VPtr{p.Obj, pathAdd(p.Path, i)})
	if !ok {
		return 0, false
	}
	n, ok := v.(VInt)
	return int64(n), ok
}

// scan is the contract of (*Scanner).Scan.
func (s *TokSem) scan(e *Engine, st *State, site ssa.CallInstruction, sc Val) []Out {
	s.Reads++
	d := tokDom(st)
	if d.corrupt {
		e.report(st, "C15", site.Pos(), "the scanner reads on although text was put back that is not the last text read")
		return nil
	}
	if d.ntFail != "" {
		e.report(st, "C15", site.Pos(), "the scanner reads on after parsing a %s has failed, at an unknown place", d.ntFail)
		return nil
	}
	mode, ok := s.mode(st, sc)
	if !ok {
		e.undecided(st, site.Pos(), "the scanning mode is not known")
		return nil
	}
	comments := mode&s.lx.modes["ScanComment"] != 0
	j := d.cur
	if !comments {
		for j < len(d.items) && d.items[j].kind == 'C' {
			j++
		}
	}
	var outs []Out
	if j == len(d.items) {
		it := Item{kind: 'L', cls: s.lx.all, gap: true}
		if j > 0 && d.items[j-1].kind == 'L' {
			p := &d.items[j-1]
			eof, rerr := s.lx.set("EOF"), s.lx.set("READERR")
			end := eof.or(rerr)
			if !p.cls.and(end).empty() {
				if !p.cls.subset(end) || !(p.cls.subset(eof) || p.cls.subset(rerr)) {
					for _, n := range splitCls(st, j-1, []CSet{p.cls.and(eof), p.cls.and(rerr), p.cls.minus(end)}) {
						outs = append(outs, s.scan(e, n, site, sc)...)
					}
					return outs
				}
				it.cls = p.cls
				it.gap = false
				it.nl = 1
			} else if p.part {
				num := s.lx.set(".FLOAT", ".BADNUM")
				if p.cls.subset(num) {
					it.cls = s.lx.set("INT", "FLOAT", "BADNUM")
					it.gap = false
					it.nl = 1
				}
			}
		}
		d.items = append(d.items, it)
	}
	it := d.items[j]
	if it.kind == 'C' {
		return []Out{s.take(st, sc, j, mode)}
	}
	if it.kind != 'L' {
		e.undecided(st, site.Pos(), "a parsed statement is scanned again")
		return nil
	}
	if comments && it.gap {
		// either a comment precedes or not
		a := st.clone()
		c := Item{kind: 'C', known: true}
		if it.nl == 1 {
			c.nl = 1
		}
		s.insertItem(e, a, j, c)
		da := tokDom(a)
		if it.nl == 2 {
			da.items[j+1].nl = 0
		}
		outs = append(outs, s.take(a, sc, j, mode))
		d.items[j].gap = false
	}
	groups, _ := s.lx.partition(d.items[j].cls, func(c int) string {
		r := s.lx.read(c, mode)
		k := fmt.Sprintf("%v%v", r.partial, r.err)
		if r.err && s.lx.cls[c].kind == kReadErr {
			k += "E"
		}
		return k
	})
	for _, n := range splitCls(st, j, groups) {
		dn := tokDom(n)
		var c int
		for c = 0; !dn.items[j].cls.has(c); c++ {
		}
		r := s.lx.read(c, mode)
		x := &dn.items[j]
		if x.known && (x.part != r.partial || x.errd != r.err) {
			s.truncate(e, n, j+1)
		}
		x = &dn.items[j]
		x.part, x.errd, x.known = r.partial, r.err, true
		outs = append(outs, s.take(n, sc, j, mode))
	}
	return outs
}

// take consumes the item j.
func (s *TokSem) take(st *State, sc Val, j int, mode int64) Out {
	d := tokDom(st)
	d.rawLo, d.rawHi, d.rawOK = d.cur, j+1, true
	d.cur = j + 1
	it := &d.items[j]
	pos := s.posVal(st, sc, j, 'S')
	var tok Val = VTok{j, mode}
	txt := Val(VStr{[]Val{VTxt{j, it.part}}})
	var err Val = VNil{}
	if it.kind == 'C' {
		tok = VInt(s.lx.tokens["TCOMMENT"])
	} else if it.errd {
		tok = VInt(s.lx.tokens["TILLEGAL"])
		txt = VStr{}
		err = newErr("scan")
	}
	return Out{st, VTuple{[]Val{tok, txt, pos, err}}}
}

// normStr replaces texts that are known by constants.
func (s *TokSem) normStr(d *TokDom, v VStr) VStr {
	ps := make([]Val, len(v.P))
	for i, p := range v.P {
		ps[i] = p
		if t, ok := p.(VTxt); ok && t.Item < len(d.items) && d.items[t.Item].kind == 'L' {
			if c, ok := s.lx.fixedText(d.items[t.Item].cls, t.Part); ok {
				ps[i] = VConstStr(c)
			}
		}
	}
	return strOf(ps...)
}

// Call implements Sem.
func (s *TokSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn == nil {
		// copy
		if len(args) == 2 {
			if w, ok := args[1].(VRaw); ok {
				_ = w
				return nil, false
			}
		}
		return nil, false
	}
	d := tokDom(st)
	switch s.fns[fn] {
	case "Scan":
		return s.scan(e, st, site, args[0]), true
	case "UnScan":
		if d.ntFail != "" {
			// deferred calls of a failed parse
		} else if !d.rawOK || (d.rawLo != d.rawHi && d.rawHi != d.cur) {
			d.corrupt = true
			st.note(site.Pos(), "puts back text that is not the last text read")
		} else if d.rawLo != d.rawHi {
			d.cur = d.rawLo
		}
		return one(st, s.posVal(st, args[0], d.cur-1, 'A')), true
	case "LastScanRaw":
		return one(st, VRaw{d.rawLo, d.rawHi, d.rawOK}), true
	case "SetLastScanRaw":
		switch w := args[1].(type) {
		case VRaw:
			d.rawLo, d.rawHi, d.rawOK = w.Lo, w.Hi, w.OK
		case VNil:
			d.rawLo, d.rawHi, d.rawOK = d.cur, d.cur, true
		default:
			d.rawOK = false
		}
		return one(st, VTuple{}), true
	case "AdvancedBulk":
		return one(st, s.bulk(st, args[0], args[1])), true
	case "FindMidComments":
		return one(st, e.newSlice(st, []Val{VMid{args[1], args[2]}})), true
	}
	if nt, ok := s.nts[fn]; ok && len(st.frames) > 0 {
		return s.callNT(e, st, site, nt, args), true
	}
	name := fn.RelString(nil)
	if strings.HasPrefix(name, "bufio.") {
		return one(st, VOpaque{"reader"}), true
	}
	switch name {
	case "strings.HasPrefix":
		if c, ok := constStr(args[1]); ok {
			if t, ok := s.single(args[0]); ok {
				return s.splitText(st, t, func(c2 int) (bool, bool) { return s.lx.hasPrefix(c2, t.Part, c) }), true
			}
		}
	case "strings.EqualFold":
		x, y := args[0], args[1]
		if _, ok := constStr(x); ok {
			x, y = y, x
		}
		if c, ok := constStr(y); ok {
			if t, ok := s.single(x); ok {
				return s.splitText(st, t, func(k int) (bool, bool) {
					if tx, fixed := s.lx.classText(k, t.Part); fixed {
						return strings.EqualFold(tx, c), true
					}
					for _, v := range []string{c, strings.ToUpper(c), strings.ToLower(c)} {
						if s.lx.canBe(k, t.Part, v) {
							return false, false
						}
					}
					return false, true
				}), true
			}
		}
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.TrimSpace":
		if t, ok := s.single(args[0]); ok {
			if name == "strings.TrimSpace" && !t.Part && t.Item < len(d.items) && d.items[t.Item].kind == 'L' {
				same := true
				for k := range s.lx.cls {
					if d.items[t.Item].cls.has(k) && (s.lx.cls[k].kind == kOther || s.lx.cls[k].kind == kSlash) {
						same = false
					}
				}
				if same {
					return one(st, args[0]), true
				}
			}
			return one(st, VStr{[]Val{VFold{t.Item, t.Part, name}}}), true
		}
	case "strings.Contains", "strings.ContainsAny", "strings.ContainsRune", "strings.HasSuffix", "strings.Index", "strings.IndexAny", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.Count":
		if outs, ok := s.within(st, name, args); ok {
			return outs, true
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
		if t, ok := s.single(args[0]); ok && t.Item < len(d.items) && d.items[t.Item].kind == 'L' {
			groups, keys := s.lx.partition(d.items[t.Item].cls, func(c int) string {
				switch cl := &s.lx.cls[c]; {
				case cl.kind == kInt, name == "strconv.ParseFloat" && (cl.kind == kFloat || cl.kind == kDotNum):
					return "number"
				}
				return "no"
			})
			var outs []Out
			for i, n := range splitCls(st, t.Item, groups) {
				if keys[i] == "number" {
					outs = append(outs, Out{n.clone(), VTuple{[]Val{VAny{0}, VNil{}}}})
				}
				outs = append(outs, Out{n, VTuple{[]Val{VInt(0), newErr("number")}}})
			}
			return outs, true
		}
	case "strings.NewReplacer":
		its, ok := e.items(st, args[0])
		if ok {
			return one(st, VRepl{its}), true
		}
	case "(*strings.Replacer).Replace":
		return one(st, s.replace(args[0], args[1])), true
	case "strings.Join":
		if its, ok := e.items(st, args[0]); ok {
			if hasSpread(its) >= 0 {
				sep, ok := constStr(args[1])
				if !ok {
					return one(st, unknownStr), true
				}
				return one(st, joinVals(its, sep)), true
			}
		}
	case "unicode/utf8.DecodeRuneInString":
		if t, ok := s.single(args[0]); ok {
			return one(st, VTuple{[]Val{VRune{t.Item}, VTop{}}}), true
		}
	}
	if name == "unicode.Is" || name == "unicode.In" {
		if _, pred, _ := tablePred(site.Common()); pred != nil {
			i := 0
			if name == "unicode.Is" {
				i = 1
			}
			if r, ok := args[i].(VRune); ok {
				return s.splitRune(st, r, func(c rune) bool { return pred(c) }), true
			}
		}
	}
	if pred, ok := runePreds[name]; ok {
		if r, ok := args[0].(VRune); ok {
			return s.splitRune(st, r, func(c rune) bool { return pred(c) }), true
		}
	}
	return nil, false
}

// VJoin is the concatenation of the strings of an unknown list.
type VJoin struct {
	Of  Val
	Sep string
}

// Map implements DomVal.
func (v VJoin) Map(m *Mapper) Val { return VJoin{mapVal(v.Of, m), v.Sep} }

// Enc implements DomVal.
func (v VJoin) Enc(b *Enc) { b.WriteString("jn" + v.Sep); b.val(v.Of) }

func joinVals(its []Val, sep string) VStr {
	var ps []Val
	for i, it := range its {
		if i > 0 {
			ps = append(ps, VConstStr(sep))
		}
		if _, ok := it.(Spread); ok {
			it = VJoin{it, sep}
		}
		ps = append(ps, it)
	}
	return strOf(ps...)
}

// replace recognises the requoting of a string literal.
func (s *TokSem) replace(r, x Val) Val {
	rp, ok := r.(VRepl)
	in, ok2 := x.(VStr)
	if !ok || !ok2 || len(in.P) != 1 || len(rp.Args) != 6 {
		return unknownStr
	}
	inner, ok := in.P[0].(VInner)
	if !ok {
		return unknownStr
	}
	m := map[string]string{}
	for i := 0; i < 6; i += 2 {
		a, ok1 := constStr(rp.Args[i])
		b, ok2 := constStr(rp.Args[i+1])
		if !ok1 || !ok2 {
			return unknownStr
		}
		m[a] = b
	}
	for _, q := range []string{`"`, `'`} {
		if len(m) == 3 && m[`\\`] == `\\` && m[`\`+q] == `\`+q && m[q] == `\`+q {
			return VStr{[]Val{VReq{q, inner.Item}}}
		}
	}
	return unknownStr
}

// single is the text of an item.
func (s *TokSem) single(v Val) (VTxt, bool) {
	x, ok := v.(VStr)
	if !ok || len(x.P) != 1 {
		return VTxt{}, false
	}
	t, ok := x.P[0].(VTxt)
	return t, ok
}

func (lx *Lex) hasPrefix(c int, partial bool, prefix string) (res, known bool) {
	if t, ok := lx.classText(c, partial); ok {
		return strings.HasPrefix(t, prefix), true
	}
	if prefix == "" {
		return true, true
	}
	if c < 0 { // a comment
		if prefix == "/" {
			return true, true
		}
		return false, !strings.HasPrefix(prefix, "//") && !strings.HasPrefix(prefix, "/*")
	}
	r := []rune(prefix)
	cl := &lx.cls[c]
	if r[0] < cl.lo || r[0] > cl.hi {
		return false, true
	}
	if len(r) == 1 && cl.lo == cl.hi {
		return true, true
	}
	return false, false
}

// splitText forks on a predicate of the text of an item.
func (s *TokSem) splitText(st *State, t VTxt, pred func(c int) (bool, bool)) []Out {
	d := tokDom(st)
	if t.Item < len(d.items) && d.items[t.Item].kind == 'C' && !t.Part {
		switch b, known := pred(-1); {
		case known:
			return one(st, VBool(b))
		default:
			return one(st, VAny{})
		}
	}
	if t.Item >= len(d.items) || d.items[t.Item].kind != 'L' {
		return one(st, VTop{})
	}
	groups, keys := s.lx.partition(d.items[t.Item].cls, func(c int) string {
		r, known := pred(c)
		if !known {
			return "?"
		}
		return fmt.Sprint(r)
	})
	var outs []Out
	for i, n := range splitCls(st, t.Item, groups) {
		switch keys[i] {
		case "true":
			outs = append(outs, Out{n, VBool(true)})
		case "false":
			outs = append(outs, Out{n, VBool(false)})
		default:
			outs = append(outs, Out{n, VAny{}})
		}
	}
	return outs
}

func foldOf(v Val) (VFold, bool) {
	if x, ok := v.(VStr); ok && len(x.P) == 1 {
		f, ok := x.P[0].(VFold)
		return f, ok
	}
	return VFold{}, false
}

// within decides what is contained in the text of a lexeme.
func (s *TokSem) within(st *State, name string, args []Val) ([]Out, bool) {
	t, ok := s.single(args[0])
	if !ok {
		// a name or constant of unknown length can contain anything
		if x, isStr := args[0].(VStr); isStr && name == "strings.Count" && len(x.P) > 0 {
			for _, p := range x.P {
				if _, free := p.(VSig); free {
					return one(st, VAny{0}), true
				}
			}
		}
	}
	if !ok || t.Part {
		return nil, false
	}
	what, ok := constStr(args[1])
	if n, isInt := args[1].(VInt); isInt {
		what, ok = string(rune(n)), true
	}
	if !ok || what == "" {
		return nil, false
	}
	any := strings.HasSuffix(name, "Any")
	free := func(c int, w string) (bool, bool) { // can a lexeme of the class contain it?
		if c < 0 {
			return w == "/" && name != "strings.HasSuffix", w == "/" && name != "strings.HasSuffix"
		}
		cl := &s.lx.cls[c]
		if tx, fixed := s.lx.classText(c, false); fixed {
			if name == "strings.HasSuffix" {
				return strings.HasSuffix(tx, w), true
			}
			return strings.Contains(tx, w), true
		}
		switch cl.kind {
		case kIdent:
			return false, !identLike("a" + w)
		case kInt:
			return false, strings.Trim(w, "0123456789xXabcdefABCDEF") != ""
		case kStr:
			if name == "strings.HasSuffix" && !strings.HasSuffix(w, string(cl.lo)) {
				return false, true
			}
			if w == string(cl.lo) {
				return true, true
			}
			return false, strings.ContainsAny(w, "\n\x00")
		}
		return false, false
	}
	pred := func(c int) (bool, bool) {
		if !any {
			return free(c, what)
		}
		known := true
		for _, r := range what {
			b, k := free(c, string(r))
			if b && k {
				return true, true
			}
			known = known && k
		}
		return false, known
	}
	outs := s.splitText(st, t, pred)
	for i := range outs {
		switch v := outs[i].v.(type) {
		case VBool:
			switch {
			case strings.HasPrefix(name, "strings.Contains"), name == "strings.HasSuffix":
			case bool(v) && name == "strings.Count":
				outs[i].v = VAny{1}
			case bool(v):
				outs[i].v = VAny{0}
			case name == "strings.Count":
				outs[i].v = VInt(0)
			default:
				outs[i].v = VInt(-1)
			}
		case VAny:
			if strings.Contains(name, "Index") {
				outs[i].v = VAny{-1}
			}
		}
	}
	return outs, true
}

// folded is what a function of a text has in common with a constant.
func (s *TokSem) folded(t VFold, c string) func(k int) (bool, bool) {
	return func(k int) (bool, bool) {
		if k < 0 {
			return false, false
		}
		if tx, fixed := s.lx.classText(k, t.Part); fixed {
			return caseFuncs[t.F](tx) == c, true
		}
		if t.F != "strings.TrimSpace" && caseFuncs[t.F](c) != c {
			return false, true
		}
		if t.F == "strings.TrimSpace" {
			return s.lx.canBe(k, t.Part, c), false
		}
		cl := &s.lx.cls[k]
		for r := cl.lo; r <= cl.hi && r < cl.lo+200; r++ {
			if c != "" && strings.EqualFold(string(r), c[:1]) && (cl.kind != kIdent || identLike(c)) {
				return false, false
			}
		}
		return false, true
	}
}

// splitRune forks on a predicate of the first character of an item.
func (s *TokSem) splitRune(st *State, r VRune, pred func(rune) bool) []Out {
	return s.splitText(st, VTxt{r.Item, true}, func(c int) (bool, bool) {
		cl := &s.lx.cls[c]
		if cl.kind == kEOF || cl.kind == kReadErr {
			return pred(0xFFFD), true
		}
		if cl.hi-cl.lo > 200 {
			return false, false
		}
		first := pred(cl.lo)
		for x := cl.lo; x <= cl.hi; x++ {
			if pred(x) != first {
				return false, false
			}
		}
		return first, true
	})
}

// bulk is the position of the last character of a text that begins at a position.
func (s *TokSem) bulk(st *State, pos, txt Val) Val {
	x, ok := txt.(VStr)
	p, ok2 := posNum(s.posType, pos, "Offset")
	fn, ok3 := posNum(s.posType, pos, "Filename")
	if ok && ok2 && ok3 && len(x.P) == 1 {
		switch t := x.P[0].(type) {
		case VTxt:
			if q, ok := p.(VPos); ok && q.Item == t.Item && q.Kind == 'S' {
				return s.buildPos(s.posType, fn, func(f byte) Val { return VPos{t.Item, 'E', f} })
			}
		case VElemF:
			if q, ok := p.(VElemF); ok && sameVal(q.Elem, t.Elem) {
				return s.buildPos(s.posType, fn, func(f byte) Val { return VElemF{t.Elem, "E" + string([]byte{f})} })
			}
		}
	}
	return s.buildPos(s.posType, unknownStr, func(byte) Val { return VTop{} })
}

// BinOp implements Sem.
func (s *TokSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) {
	op := in.Op
	if !isCmp(op) {
		if l, ok := x.(VTLen); ok {
			if n, ok := y.(VInt); ok {
				switch op {
				case token.SUB:
					return one(st, VTLen{l.Of, l.Off - int(n)}), true
				case token.ADD:
					return one(st, VTLen{l.Of, l.Off + int(n)}), true
				}
			}
		}
		return nil, false
	}
	d := tokDom(st)
	// token kinds
	if t, ok := x.(VTok); ok {
		return s.cmpTok(e, st, op, t, y), true
	}
	if t, ok := y.(VTok); ok {
		return s.cmpTok(e, st, flip(op), t, x), true
	}
	if r, ok := x.(VRune); ok {
		if n, ok := y.(VInt); ok {
			return s.splitRune(st, r, func(c rune) bool { return cmpInt(op, int64(c), int64(n)) }), true
		}
	}
	if r, ok := y.(VRune); ok {
		if n, ok := x.(VInt); ok {
			return s.splitRune(st, r, func(c rune) bool { return cmpInt(op, int64(n), int64(c)) }), true
		}
	}
	if a, ok := x.(VPos); ok {
		if b, ok := y.(VPos); ok {
			return s.cmpPos(e, st, op, a, b), true
		}
	}
	if l, ok := x.(VTLen); ok {
		if n, ok := y.(VInt); ok {
			return s.cmpLen(st, op, l, n), true
		}
	}
	if l, ok := y.(VTLen); ok {
		if n, ok := x.(VInt); ok {
			return s.cmpLen(st, flip(op), l, n), true
		}
	}
	sx, okx := x.(VStr)
	sy, oky := y.(VStr)
	if okx && oky && (op == token.EQL || op == token.NEQ) {
		sx, sy = s.normStr(d, sx), s.normStr(d, sy)
		if b, known := e.equal(st, sx, sy); known {
			return one(st, VBool(b == (op == token.EQL))), true
		}
		if _, ok := constStr(sx); ok {
			sx, sy = sy, sx
		}
		if len(sx.P) == 1 {
			if f, ok := sx.P[0].(VFold); ok {
				if c, ok := constStr(sy); ok {
					outs := s.splitText(st, VTxt{f.Item, f.Part}, s.folded(f, c))
					for i := range outs {
						if b, ok := outs[i].v.(VBool); ok {
							outs[i].v = VBool(bool(b) == (op == token.EQL))
						}
					}
					return outs, true
				}
			}
		}
		if t, ok := s.single(sx); ok && t.Item < len(d.items) && (d.items[t.Item].kind == 'L' || d.items[t.Item].kind == 'C') {
			if c, ok := constStr(sy); ok {
				outs := s.splitText(st, t, func(k int) (bool, bool) {
					if !s.lx.canBe(k, t.Part, c) {
						return op == token.NEQ, true
					}
					if _, fixed := s.lx.classText(k, t.Part); fixed {
						return op == token.EQL, true
					}
					return false, false
				})
				return outs, true
			}
			if d.items[t.Item].kind == 'C' {
				return e.compare(st, in, op, sx, sy), true
			}
			// enumerate the texts
			groups, keys := s.lx.partition(d.items[t.Item].cls, func(k int) string {
				tx, fixed := s.lx.classText(k, t.Part)
				if !fixed {
					return "?"
				}
				return "=" + tx
			})
			if len(groups) > 0 && len(groups) <= 12 {
				var outs []Out
				for i, n := range splitCls(st, t.Item, groups) {
					if keys[i] == "?" || len(groups) == 1 {
						if keys[i] != "?" {
							break
						}
						outs = append(outs, Out{n, VTop{}})
						continue
					}
					r, ok := s.BinOp(e, n, in, x, y)
					if !ok {
						r = e.binopVals(n, in, x, y)
					}
					outs = append(outs, r...)
				}
				if len(outs) > 0 {
					return outs, true
				}
			}
		}
		return e.compare(st, in, op, sx, sy), true
	}
	return nil, false
}

func (s *TokSem) cmpTok(e *Engine, st *State, op token.Token, t VTok, y Val) []Out {
	d := tokDom(st)
	if t.Item >= len(d.items) || d.items[t.Item].kind != 'L' {
		return one(st, VTop{})
	}
	key := func(c int) string { return fmt.Sprint(s.lx.read(c, t.Mode).tok) }
	switch v := y.(type) {
	case VInt:
		groups, keys := s.lx.partition(d.items[t.Item].cls, func(c int) string {
			return fmt.Sprint(cmpInt(op, s.lx.read(c, t.Mode).tok, int64(v)))
		})
		var outs []Out
		for i, n := range splitCls(st, t.Item, groups) {
			outs = append(outs, Out{n, VBool(keys[i] == "true")})
		}
		return outs
	case VTok:
		if v == t {
			return one(st, VBool(op == token.EQL || op == token.LEQ || op == token.GEQ))
		}
		groups, keys := s.lx.partition(d.items[t.Item].cls, key)
		var outs []Out
		for i, n := range splitCls(st, t.Item, groups) {
			var k int64
			fmt.Sscan(keys[i], &k)
			outs = append(outs, s.cmpTok(e, n, flip(op), v, VInt(k))...)
		}
		return outs
	}
	return one(st, VTop{})
}

func (s *TokSem) cmpLen(st *State, op token.Token, l VTLen, n VInt) []Out {
	t, ok := s.single(l.Of)
	if !ok {
		if x, isStr := l.Of.(VStr); isStr && n > 8 && op != token.EQL && op != token.NEQ {
			for _, p := range x.P {
				if _, free := p.(VSig); free {
					return one(st, VAny{0})
				}
			}
		}
		return one(st, VTop{})
	}
	return s.splitText(st, t, func(c int) (bool, bool) {
		if tx, ok := s.lx.classText(c, t.Part); ok {
			return cmpInt(op, int64(len(tx)+l.Off), int64(n)), true
		}
		min := int64(1)
		if c < 0 || s.lx.cls[c].kind == kStr {
			min = 2
		}
		// lengths from min on
		lo := cmpInt(op, min+int64(l.Off), int64(n))
		switch op {
		case token.GTR, token.GEQ:
			return lo, lo
		case token.NEQ:
			return true, min+int64(l.Off) > int64(n)
		case token.EQL:
			return false, min+int64(l.Off) > int64(n)
		case token.LSS, token.LEQ:
			return false, !lo
		}
		return false, false
	})
}

// order gives a position behind (or at the end of) items a place among them.
func (p VPos) order() int {
	switch p.Kind {
	case 'S':
		return p.Item * 3
	case 'E':
		return p.Item*3 + 1
	}
	return p.Item*3 + 2
}

// cmpPos compares numbers of positions.
func (s *TokSem) cmpPos(e *Engine, st *State, op token.Token, a, b VPos) []Out {
	if a == b {
		return one(st, VBool(op == token.EQL || op == token.LEQ || op == token.GEQ))
	}
	if a.Field != b.Field || a.Field == 'C' {
		return one(st, VTop{})
	}
	d := tokDom(st)
	if a.order() > b.order() {
		a, b = b, a
		op = flip(op)
	}
	if a.Kind == 'I' || b.Kind == 'I' || a.Item < 0 || b.Item >= len(d.items) {
		return one(st, VTop{})
	}
	if a.Field == 'O' {
		if a.Item < b.Item && b.Kind != 'A' && a.Kind == 'S' {
			return one(st, VBool(cmpInt(op, 0, 1)))
		}
		return one(st, VTop{})
	}
	// lines: find the first item in between that may start a new line
	if a.Kind == 'A' && d.items[a.Item].kind == 'C' {
		return one(st, VTop{})
	}
	if a.Kind == 'S' && d.items[a.Item].kind != 'L' || (b.Kind != 'S' && d.items[b.Item].kind != 'L') {
		return one(st, VTop{})
	}
	same := true
	unknown := -1
	for k := a.Item + 1; k <= b.Item; k++ {
		if d.items[k].cut {
			return one(st, VTop{})
		}
		if k > a.Item+1 && d.items[k-1].kind != 'L' {
			// the item in between may span lines
			same = false
			unknown = -2
		}
		switch d.items[k].nl {
		case 2:
			return one(st, VBool(cmpInt(op, 0, 1)))
		case 0:
			if same {
				same = false
				unknown = k
			} else {
				unknown = -2
			}
		}
	}
	if same {
		return one(st, VBool(cmpInt(op, 0, 0)))
	}
	if unknown < 0 {
		return one(st, VTop{})
	}
	o := st.clone()
	tokDom(o).items[unknown].nl = 2
	d.items[unknown].nl = 1
	return []Out{{st, VBool(cmpInt(op, 0, 0))}, {o, VBool(cmpInt(op, 0, 1))}}
}

// Taints tells the engine that unknown conditions are not relied on.
func (s *TokSem) Taints() {}

// Len implements Sem.
func (s *TokSem) Len(e *Engine, st *State, x Val) (Val, bool) {
	if v, ok := x.(VStr); ok {
		v = s.normStr(tokDom(st), v)
		if c, ok := constStr(v); ok {
			return VInt(len(c)), true
		}
		if _, ok := s.single(v); ok {
			return VTLen{v, 0}, true
		}
	}
	if w, ok := x.(VRaw); ok {
		if w.OK && w.Lo == w.Hi {
			return VInt(0), true
		}
		return VTop{}, true
	}
	return nil, false
}

// Slice implements Sem.
func (s *TokSem) Slice(e *Engine, st *State, in *ssa.Slice, x, lo, hi Val) ([]Out, bool) {
	if w, ok := x.(VRaw); ok {
		_ = w
		return one(st, VRaw{}), true
	}
	v, ok := x.(VStr)
	if !ok {
		return nil, false
	}
	d := tokDom(st)
	t, ok := s.single(v)
	if !ok || t.Item >= len(d.items) || d.items[t.Item].kind != 'L' {
		return nil, false
	}
	cls := d.items[t.Item].cls
	l, okl := lo.(VInt)
	if okl && l == 0 && in.High != nil {
		if h, ok := hi.(VInt); ok && h == 1 {
			groups, keys := s.lx.partition(cls, func(c int) string {
				cl := &s.lx.cls[c]
				if cl.lo < 0 {
					return "empty"
				}
				if cl.lo == cl.hi && cl.lo < 128 {
					return "=" + string(cl.lo)
				}
				if cl.hi < 128 {
					return "first"
				}
				return "?"
			})
			var outs []Out
			for i, n := range splitCls(st, t.Item, groups) {
				switch {
				case keys[i] == "empty":
					e.report(n, "panic", in.Pos(), "slice bounds out of range of an empty text")
				case keys[i] == "first":
					outs = append(outs, Out{n, VStr{[]Val{VTxt{t.Item, true}}}})
				case keys[i] == "?":
					outs = append(outs, Out{n, unknownStr})
				default:
					outs = append(outs, Out{n, strOf(VConstStr(keys[i][1:]))})
				}
			}
			return outs, true
		}
	}
	strs := s.lx.set("STR")
	if okl && l == 1 && !t.Part {
		if h, ok := hi.(VTLen); ok && h.Off == -1 && sameVal(h.Of, v) {
			var outs []Out
			for _, n := range splitCls(st, t.Item, []CSet{cls.and(strs), cls.minus(strs)}) {
				c := tokDom(n).items[t.Item].cls
				if c.subset(strs) {
					outs = append(outs, Out{n, VStr{[]Val{VInner{t.Item}}}})
				} else {
					e.report(n, "panic", in.Pos(), "slice bounds may be out of range for the text %s", s.lx.describe(c))
				}
			}
			return outs, true
		}
	}
	return nil, false
}

// Index implements Sem.
func (s *TokSem) Index(e *Engine, st *State, in ssa.Instruction, x, i Val) ([]Out, bool) {
	d := tokDom(st)
	if v, ok := x.(VStr); ok {
		if t, ok := s.single(v); ok && t.Item < len(d.items) && d.items[t.Item].kind == 'L' {
			if n, ok := i.(VInt); ok && n == 0 {
				var outs []Out
				end := s.lx.set("EOF", "READERR")
				for _, c := range splitCls(st, t.Item, []CSet{d.items[t.Item].cls.and(end), d.items[t.Item].cls.minus(end)}) {
					if tokDom(c).items[t.Item].cls.subset(end) {
						e.report(c, "panic", in.Pos(), "index out of range of an empty text")
						continue
					}
					outs = append(outs, Out{c, VRune{t.Item}})
				}
				return outs, true
			}
		}
	}
	return nil, false
}

// Lookup implements Sem.
func (s *TokSem) Lookup(e *Engine, st *State, in *ssa.Lookup, m VMapC, key Val) ([]Out, bool) {
	d := tokDom(st)
	find := func(k Val) string {
		for i := range m.K {
			if sameVal(m.K[i], k) {
				return fmt.Sprint(i)
			}
		}
		return "no"
	}
	// values that are the same need no distinction
	canon := map[string]string{}
	for i := range m.V {
		v := encStr(m.V[i])
		if _, ok := canon[v]; !ok {
			canon[v] = fmt.Sprint(i)
		}
	}
	group := func(k string) string {
		if k == "no" {
			return k
		}
		var i int
		fmt.Sscan(k, &i)
		return canon[encStr(m.V[i])]
	}
	item := -1
	var keyOf func(c int) string
	if t, ok := key.(VTok); ok {
		item = t.Item
		keyOf = func(c int) string { return group(find(VInt(s.lx.read(c, t.Mode).tok))) }
	} else if f, ok := foldOf(key); ok {
		item = f.Item
		keyOf = func(c int) string {
			if tx, ok := s.lx.classText(c, f.Part); ok {
				return group(find(strOf(VConstStr(caseFuncs[f.F](tx)))))
			}
			for i := range m.K {
				k, ok := constStr(m.K[i])
				if !ok {
					return "?"
				}
				if _, known := s.folded(f, k)(c); !known && f.F == "strings.TrimSpace" {
					return "?"
				}
			}
			return "no" // but for a few spellings
		}
	} else if t, ok := s.single(key); ok {
		item = t.Item
		keyOf = func(c int) string {
			if tx, ok := s.lx.classText(c, t.Part); ok {
				return group(find(strOf(VConstStr(tx))))
			}
			for i := range m.K {
				if k, ok := constStr(m.K[i]); !ok || s.lx.canBe(c, t.Part, k) {
					return "?"
				}
			}
			return "no"
		}
	} else if r, ok := key.(VRune); ok {
		item = r.Item
		keyOf = func(c int) string {
			cl := &s.lx.cls[c]
			if cl.lo == cl.hi {
				return group(find(VInt(cl.lo)))
			}
			return "?"
		}
	}
	if item < 0 || item >= len(d.items) || d.items[item].kind != 'L' {
		return nil, false
	}
	groups, keys := s.lx.partition(d.items[item].cls, keyOf)
	for _, k := range keys {
		if k == "?" {
			return nil, false
		}
	}
	var outs []Out
	for i, n := range splitCls(st, item, groups) {
		if keys[i] == "no" {
			outs = append(outs, Out{n, nil})
			continue
		}
		var k int
		fmt.Sscan(keys[i], &k)
		outs = append(outs, Out{n, m.V[k]})
	}
	return outs, true
}

// Convert implements Sem.
func (s *TokSem) Convert(e *Engine, st *State, in *ssa.Convert, x Val) ([]Out, bool) {
	switch v := x.(type) {
	case VRune:
		if in == nil {
			return one(st, VStr{[]Val{VTxt{v.Item, true}}}), true
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(st, VStr{[]Val{VTxt{v.Item, true}}}), true
		}
		return one(st, v), true
	case VTok:
		return one(st, v), true
	}
	return nil, false
}

// FieldAddr implements Sem.
func (s *TokSem) FieldAddr(e *Engine, st *State, in *ssa.FieldAddr, x Val) ([]Out, bool) {
	if _, ok := x.(VElem); ok {
		return one(st, VOpaque{"element"}), true
	}
	return nil, false
}

// Expand gives a part of the element of a spread the shape of its type.
func (s *TokSem) Expand(el Val, path []int, t types.Type) Val {
	p := ""
	for _, i := range path {
		p = pathAdd(p, i)
	}
	if types.Identical(t, s.posType) {
		return s.buildPos(s.posType, filenameVal, func(f byte) Val { return VElemF{el, "S" + string([]byte{f})} })
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = s.Expand(el, append(append([]int(nil), path...), i), u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VStr{[]Val{VElemF{el, p}}}
		}
	}
	if len(path) == 0 {
		return el
	}
	return VElemF{el, p}
}

// Append implements Sem.
func (s *TokSem) Append(e *Engine, st *State, site ssa.CallInstruction, x, y Val) ([]Out, bool) {
	a, ok1 := x.(VRaw)
	b, ok2 := y.(VRaw)
	if !ok1 && !ok2 {
		return nil, false
	}
	if _, ok := x.(VNil); ok && ok2 {
		return one(st, b), true
	}
	if ok1 && ok2 && a.OK && b.OK {
		switch {
		case a.Lo == a.Hi:
			return one(st, b), true
		case b.Lo == b.Hi:
			return one(st, a), true
		case a.Hi == b.Lo:
			return one(st, VRaw{a.Lo, b.Hi, true}), true
		}
	}
	return one(st, VRaw{}), true
}

// ListEnd implements Sem.
func (s *TokSem) ListEnd(e *Engine, st *State, sp Spread, empty bool) bool {
	if empty {
		m, isMid := sp.(VMid)
		if isMid {
			d := tokDom(st)
			d.noMid = append(d.noMid, m)
		}
		return isMid
	}
	// the images of the elements are complete
	key := encStr(sp)
	for o := e.nbase; o < len(st.heap); o++ {
		a, ok := st.heap[o].(VArr)
		if !ok {
			continue
		}
		var n []Val
		for i, it := range a.E {
			p, ok := it.(VPart)
			if !ok || encStr(p.Src) != key {
				continue
			}
			if n == nil {
				n = append([]Val(nil), a.E...)
			}
			tm := p.Tmpl
			if f, ok := tm.(VIface); ok {
				tm = f.V
			}
			if sameVal(tm, sp.Element()) {
				n[i] = sp
			} else {
				n[i] = VMapped{p.Src, p.Tmpl}
			}
		}
		if n != nil {
			st.heap[o] = VArr{n}
		}
	}
	return true
}

// sortedKeys of a string map.
func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

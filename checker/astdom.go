package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The AST domain interprets code that reads an AST of unknown shape.  A part of
// the AST is named by its path from the root: self.EnumBody[*] is the element
// under the cursor of the iteration over the list self.EnumBody.

// VSym is a part of the AST: a non-nil pointer, an interface, a struct or a basic value.
type VSym struct {
	Path string
	T    types.Type
}

// Map implements DomVal.
func (v VSym) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VSym) Enc(b *Enc) { b.WriteString("a" + v.Path) }

// VSymAddr is the address of a part of the AST.
type VSymAddr struct {
	Path string
	T    types.Type // of the part
}

// Map implements DomVal.
func (v VSymAddr) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VSymAddr) Enc(b *Enc) { b.WriteString("&a" + v.Path) }

// VSymList stands for all elements of a list of the AST.
type VSymList struct {
	Path string
	T    types.Type // of an element
}

// Map implements DomVal.
func (v VSymList) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VSymList) Enc(b *Enc) { b.WriteString("A" + v.Path) }

// Element implements Spread.
func (v VSymList) Element() Val { return VSym{v.Path + "[*]", v.T} }

// VConv is the unordered form of an element.
type VConv struct {
	Path string
	T    types.Type // the type of the result
}

// Map implements DomVal.
func (v VConv) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VConv) Enc(b *Enc) { b.WriteString("conv(" + v.Path + ")") }

// VFilt stands for the elements of a body that have a type, converted or not.
// It covers the elements up to the cursor, or all of them when Full.
type VFilt struct {
	Path string
	E    types.Type // element type of the resulting list
	Conv bool
	Full bool
}

// Map implements DomVal.
func (v VFilt) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VFilt) Enc(b *Enc) {
	b.WriteString("filt(" + v.Path + " " + typeKey(v.E))
	b.bools(v.Conv, v.Full)
	b.WriteByte(')')
}

// Element implements Spread.
func (v VFilt) Element() Val { return VTop{} }

// VSplit is the list of the parts of a string.
type VSplit struct {
	S   Val
	Sep string
}

// Map implements DomVal.
func (v VSplit) Map(m *Mapper) Val { return VSplit{mapVal(v.S, m), v.Sep} }

// Enc implements DomVal.
func (v VSplit) Enc(b *Enc) { b.WriteString("split"); b.val(v.S); b.WriteString(v.Sep) }

// VStrLen is the length of a string of known structure: N plus the lengths of pieces.
type VStrLen struct {
	N int
	P []Val
}

// Map implements DomVal.
func (v VStrLen) Map(m *Mapper) Val { return VStrLen{v.N, mapVals(v.P, m)} }

// Enc implements DomVal.
func (v VStrLen) Enc(b *Enc) { b.WriteString("len"); b.ints(v.N); b.vals(v.P) }

// AstDom is the domain state.
type AstDom struct {
	facts   map[string]string // what is known about a part: "nil", "set", "=text", "!text!text", a type
	count   map[string]int    // events at a path (for elements: in the current pass)
	lists   map[string]string // state of a list: "" not visited, in, all, some, empty
	visited int               // calls of the root's own visitor method
	refused bool
	left    bool // something below was visited
	ended   map[string]bool
	convErr bool // the conversion of an element below has failed
	errType string
	slices  map[string]Val // the lists that were loaded
}

func newAstDom() *AstDom {
	return &AstDom{facts: map[string]string{}, count: map[string]int{}, lists: map[string]string{}, ended: map[string]bool{}, slices: map[string]Val{}}
}

// Clone implements Dom.
func (d *AstDom) Clone() Dom {
	n := *d
	n.facts = map[string]string{}
	for k, v := range d.facts {
		n.facts[k] = v
	}
	n.count = map[string]int{}
	for k, v := range d.count {
		n.count[k] = v
	}
	n.lists = map[string]string{}
	for k, v := range d.lists {
		n.lists[k] = v
	}
	n.slices = map[string]Val{}
	for k, v := range d.slices {
		n.slices[k] = v
	}
	n.ended = map[string]bool{}
	for k, v := range d.ended {
		n.ended[k] = v
	}
	return &n
}

// Vals implements Dom.
func (d *AstDom) Vals(f func(Val) Val) {
	for _, k := range sortedKeys(d.slices) {
		d.slices[k] = f(d.slices[k])
	}
}

// Enc implements Dom.
func (d *AstDom) Enc(b *Enc) {
	enc := func(m map[string]string) {
		for _, k := range sortedKeys(m) {
			b.WriteString(k + ":" + m[k] + ";")
		}
		b.WriteByte('|')
	}
	enc(d.facts)
	enc(d.lists)
	for _, k := range sortedKeys(d.count) {
		b.WriteString(k)
		b.ints(d.count[k])
	}
	for _, k := range sortedKeys(d.ended) {
		b.WriteString("e" + k)
	}
	b.ints(d.visited)
	b.bools(d.refused, d.left, d.convErr)
	for _, k := range sortedKeys(d.slices) {
		b.WriteString(k)
		b.val(d.slices[k])
	}
	b.WriteString(d.errType)
}

// AstSem is the semantics of the AST domain.
type AstSem struct {
	BaseSem
	p      *Program
	self   *types.Named
	mode   string // accept, interpret or plain
	method map[string]*types.Func
	// conv are the functions that convert elements.
	conv map[*ssa.Function]bool
	root *ssa.Function
	body string // path of the interpreted body
	done func(e *Engine, st *State, res []Val)
	// kinds are the types of elements a list can hold.
	kinds map[string][]types.Type
	Calls int
}

func astDom(st *State) *AstDom { return st.dom.(*AstDom) }

// part gives a part of the AST its value. It may fork.
func (s *AstSem) part(st *State, path string, t types.Type) []Out {
	d := astDom(st)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if c, ok := strings.CutPrefix(d.facts[path], "="); ok {
				return one(st, strOf(VConstStr(c)))
			}
			return one(st, VStr{[]Val{VSym{path, t}}})
		}
		return one(st, VSym{path, t})
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			outs := s.part(st, path+"."+u.Field(i).Name(), u.Field(i).Type())
			if len(outs) != 1 {
				return one(st, VSym{path, t})
			}
			f[i] = outs[0].v
		}
		return one(st, VStruct{f})
	case *types.Slice:
		if v, ok := d.slices[path]; ok {
			return one(st, v)
		}
		v := VSlice{st.alloc(VArr{[]Val{VSymList{path, u.Elem()}}}), "", 0, -1}
		if !strings.Contains(path, "[*]") {
			d.slices[path] = v
		}
		return one(st, v)
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		switch d.facts[path] {
		case "nil":
			return one(st, VNil{})
		case "set":
			return one(st, VSym{path, t})
		}
		if strings.HasSuffix(path, "[*]") {
			return one(st, VSym{path, t}) // bodies hold no nil elements (C05)
		}
		o := st.clone()
		d.facts[path] = "nil"
		astDom(o).facts[path] = "set"
		return []Out{{st, VNil{}}, {o, VSym{path, t}}}
	}
	return one(st, VSym{path, t})
}

// FieldAddr implements Sem.
func (s *AstSem) FieldAddr(e *Engine, st *State, in *ssa.FieldAddr, x Val) ([]Out, bool) {
	var path string
	var t types.Type
	switch v := x.(type) {
	case VSym:
		path = v.Path
	case VSymAddr:
		path = v.Path
	default:
		return nil, false
	}
	t = in.X.Type().Underlying().(*types.Pointer).Elem()
	f := t.Underlying().(*types.Struct).Field(in.Field)
	return one(st, VSymAddr{path + "." + f.Name(), f.Type()}), true
}

// Load implements Sem.
func (s *AstSem) Load(e *Engine, st *State, in *ssa.UnOp, p Val) ([]Out, bool) {
	switch v := p.(type) {
	case VSymAddr:
		return s.part(st, v.Path, v.T), true
	case VSym:
		return s.part(st, v.Path+"*", in.Type()), true
	}
	return nil, false
}

// Expand gives elements of lists their value.
func (s *AstSem) Expand(el Val, path []int, t types.Type) Val {
	if len(path) == 0 {
		if v, ok := el.(VSym); ok {
			if _, isStr := v.T.Underlying().(*types.Basic); isStr {
				return VStr{[]Val{v}}
			}
		}
		return el
	}
	return VTop{}
}

// Store implements Sem.
func (s *AstSem) Store(e *Engine, st *State, in *ssa.Store, p, v Val) ([]*State, bool) {
	switch q := p.(type) {
	case VSymAddr:
		if q.Path == "some listed[*]" {
			e.report(st, "lost", in.Pos(), "an element that is in a list already is replaced")
			return nil, true
		}
		e.report(st, "impure", in.Pos(), "the AST is modified (%s)", q.Path)
		return nil, true
	case VSym:
		e.report(st, "impure", in.Pos(), "the AST is modified (%s)", q.Path)
		return nil, true
	}
	return nil, false
}

// BinOp implements Sem.
func (s *AstSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) {
	if outs, ok := s.anyIn(e, st, in.X, in.Y, x, in.Op, y); ok {
		return outs, true
	}
	if outs, ok := s.anyIn(e, st, in.Y, in.X, y, flip(in.Op), x); ok {
		return outs, true
	}
	if in.Op != token.EQL && in.Op != token.NEQ {
		if l, ok := x.(VStrLen); ok {
			if n, ok := y.(VInt); ok {
				switch in.Op {
				case token.SUB:
					return one(st, VStrLen{l.N - int(n), l.P}), true
				case token.ADD:
					return one(st, VStrLen{l.N + int(n), l.P}), true
				case token.GEQ:
					if l.N >= int(n) {
						return one(st, VBool(true)), true
					}
				case token.GTR:
					if l.N > int(n) {
						return one(st, VBool(true)), true
					}
				case token.LSS:
					if l.N >= int(n) {
						return one(st, VBool(false)), true
					}
				case token.LEQ:
					if l.N > int(n) {
						return one(st, VBool(false)), true
					}
				}
			}
		}
		return nil, false
	}
	want := in.Op == token.EQL
	if _, ok := x.(VNil); ok {
		x, y = y, x
	}
	if _, ok := y.(VNil); ok {
		switch x.(type) {
		case VSym, VSymAddr, VConv:
			return one(st, VBool(!want)), true
		}
	}
	if a, ok := x.(VSym); ok {
		if b, ok := y.(VSym); ok && a.Path == b.Path && !strings.Contains(a.Path, "[*]") {
			return one(st, VBool(want)), true
		}
	}
	// strings and constants
	sx, ok1 := x.(VStr)
	sy, ok2 := y.(VStr)
	if ok1 && ok2 {
		if _, ok := constStr(sx); ok {
			sx, sy = sy, sx
		}
		c, ok := constStr(sy)
		if !ok {
			return nil, false
		}
		if len(sx.P) == 1 {
			if v, ok := sx.P[0].(VSym); ok && !strings.HasPrefix(v.Path, "some ") {
				return s.decide(st, v.Path, c, want), true
			}
		}
		// a known beginning or end that differs
		if len(sx.P) > 0 {
			if k, ok := sx.P[0].(VConstStr); ok && !strings.HasPrefix(c, string(k)) {
				return one(st, VBool(!want)), true
			}
			if k, ok := sx.P[len(sx.P)-1].(VConstStr); ok && !strings.HasSuffix(c, string(k)) {
				return one(st, VBool(!want)), true
			}
		}
	}
	return nil, false
}

// anyIn decides whether a list of the AST has elements, outside of an iteration.
func (s *AstSem) anyIn(e *Engine, st *State, list, num ssa.Value, x Val, op token.Token, y Val) ([]Out, bool) {
	l, ok := x.(VLen)
	n, isN := y.(VInt)
	if _, isC := num.(*ssa.Const); !ok || !isN || !isC || l.Off != 0 || l.Lo != 0 || restOf(list) != nil {
		return nil, false
	}
	neg := false
	switch {
	case n == 0 && (op == token.GTR || op == token.NEQ), n == 1 && op == token.GEQ:
	case n == 0 && (op == token.LEQ || op == token.EQL), n == 1 && op == token.LSS:
		neg = true
	default:
		return nil, false
	}
	v, ok := getPath(st.heap[l.Obj], pathSplit(l.Path))
	if !ok {
		return nil, false
	}
	arr, ok := v.(VArr)
	if !ok || len(arr.E) != 1 {
		return nil, false
	}
	sl, ok := arr.E[0].(VSymList)
	if !ok {
		return nil, false
	}
	d := astDom(st)
	var outs []Out
	if d.facts["len "+sl.Path] == "" && (d.lists[sl.Path] == "" || d.lists[sl.Path] == "empty") {
		o := st.clone()
		if s.ListEnd(e, o, sl, true) {
			outs = append(outs, Out{o, VBool(neg)})
		}
	}
	if d.lists[sl.Path] != "empty" {
		if d.lists[sl.Path] == "" {
			d.facts["len "+sl.Path] = "some"
		}
		outs = append(outs, Out{st, VBool(!neg)})
	}
	return outs, true
}

// decide compares a string of the AST with a constant.
func (s *AstSem) decide(st *State, path, c string, want bool) []Out {
	d := astDom(st)
	f := d.facts[path]
	if k, ok := strings.CutPrefix(f, "="); ok {
		return one(st, VBool((k == c) == want))
	}
	if strings.Contains(f+"!", "!"+c+"!") {
		return one(st, VBool(!want))
	}
	o := st.clone()
	d.facts[path] = "=" + c
	ex := strings.Split(strings.TrimPrefix(f, "!"), "!")
	if f == "" {
		ex = nil
	}
	ex = append(ex, c)
	sort.Strings(ex)
	astDom(o).facts[path] = "!" + strings.Join(ex, "!")
	return []Out{{st, VBool(want)}, {o, VBool(!want)}}
}

// TypeAssert implements Sem.
func (s *AstSem) TypeAssert(e *Engine, st *State, in *ssa.TypeAssert, x Val) ([]Out, bool) {
	v, ok := x.(VSym)
	if !ok {
		return nil, false
	}
	d := astDom(st)
	key := "type " + v.Path
	yes := func(st *State) Out {
		r := Val(VSym{v.Path, in.AssertedType})
		if in.CommaOk {
			r = VTuple{[]Val{r, VBool(true)}}
		}
		return Out{st, r}
	}
	no := func(st *State) []Out {
		if in.CommaOk {
			return one(st, VTuple{[]Val{zeroVal(in.AssertedType), VBool(false)}})
		}
		e.report(st, "panic", in.Pos(), "type assertion to %s can fail", typeName(in.AssertedType))
		return nil
	}
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface)) {
			return []Out{yes(st)}, true
		}
		return nil, false
	}
	name := typeName(in.AssertedType)
	f := d.facts[key]
	if k, ok := strings.CutPrefix(f, "="); ok {
		if k == name {
			return []Out{yes(st)}, true
		}
		return no(st), true
	}
	possible := true
	rest := 0
	list := strings.TrimSuffix(v.Path, "[*]")
	if ks, ok := s.kinds[list]; ok && strings.HasSuffix(v.Path, "[*]") {
		possible = false
		for _, k := range ks {
			n := typeName(k)
			if strings.Contains(f+"!", "!"+n+"!") {
				continue
			}
			if n == name {
				possible = true
			} else {
				rest++
			}
		}
	} else {
		rest = 1
		if strings.Contains(f+"!", "!"+name+"!") {
			possible = false
		}
	}
	var outs []Out
	if possible {
		o := st.clone()
		astDom(o).facts[key] = "=" + name
		outs = append(outs, yes(o))
	}
	if rest > 0 {
		ex := strings.Split(strings.TrimPrefix(f, "!"), "!")
		if f == "" {
			ex = nil
		}
		if possible {
			ex = append(ex, name)
		}
		sort.Strings(ex)
		if len(ex) > 0 {
			d.facts[key] = "!" + strings.Join(ex, "!")
		}
		outs = append(outs, no(st)...)
	}
	return outs, true
}

// ListElem is told that the cursor arrives at an element of a list.
func (s *AstSem) ListElem(e *Engine, st *State, sp Spread, first bool) bool {
	l, ok := sp.(VSymList)
	if !ok {
		return true
	}
	d := astDom(st)
	if first && d.lists[l.Path] == "empty" {
		return false
	}
	s.leave(e, st, l, first)
	if first {
		done := d.lists[l.Path] == "all" || d.lists[l.Path] == "some" || d.lists[l.Path] == "in"
		if done && (s.mode != "accept" || d.ended["visited "+l.Path]) {
			d.lists[l.Path] = "again"
		} else {
			d.lists[l.Path] = "in"
		}
	}
	el := l.Path + "[*]"
	for k := range d.facts {
		if strings.Contains(k, el) {
			delete(d.facts, k)
		}
	}
	return true
}

// leave checks the element the cursor leaves.
func (s *AstSem) leave(e *Engine, st *State, l VSymList, first bool) {
	d := astDom(st)
	el := l.Path + "[*]"
	if first {
		d.count[el] = 0
		return
	}
	n := d.count[el]
	if n == 0 {
		if d.lists[l.Path] == "in" {
			d.lists[l.Path] = "in, some left out"
		}
	} else if strings.Contains(d.lists[l.Path], "left out") {
		d.lists[l.Path] = "mixed"
	}
	delete(d.count, el)
}

// ListEnd implements Sem.
func (s *AstSem) ListEnd(e *Engine, st *State, sp Spread, empty bool) bool {
	l, ok := sp.(VSymList)
	if !ok {
		return true
	}
	d := astDom(st)
	if empty {
		if f := d.lists[l.Path]; f != "" && f != "empty" || d.facts["len "+l.Path] != "" {
			return false // it has elements
		}
		d.lists[l.Path] = "empty"
	} else {
		s.leave(e, st, l, false)
		switch d.lists[l.Path] {
		case "in":
			d.lists[l.Path] = "all"
		case "in, some left out", "mixed":
			d.lists[l.Path] = "some"
		case "again":
			d.lists[l.Path] = "all"
		}
		el := l.Path + "[*]"
		for k := range d.facts {
			if strings.Contains(k, el) {
				delete(d.facts, k)
			}
		}
	}
	d.ended[l.Path] = true
	if s.mode == "interpret" && l.Path == s.body {
		s.full(st)
	}
	return true
}

// event records that a visitor is sent to a part of the AST.
func (s *AstSem) event(e *Engine, st *State, pos token.Pos, path string) {
	d := astDom(st)
	what := s.self.Obj().Name() + strings.TrimPrefix(path, "self")
	if own := s.ownMethod(); own != nil {
		if d.visited == 0 {
			e.report(st, "prune", pos, "%s is visited before %s is asked", what, own.Name())
		} else if d.refused {
			e.report(st, "prune", pos, "%s is visited although %s has refused", what, own.Name())
		}
	}
	d.left = true
	d.count[path]++
	if d.count[path] > 1 {
		e.report(st, "visit", pos, "%s is visited more than once", what)
	}
	if i := strings.Index(path, "[*]"); i >= 0 {
		d.ended["visited "+path[:i]] = true
		if d.lists[path[:i]] == "again" {
			e.report(st, "visit", pos, "%s is visited more than once", what)
		}
	}
}

// ownMethod is the visitor method for the root type.
func (s *AstSem) ownMethod() *types.Func { return s.method[typeName(types.NewPointer(s.self))] }

// Invoke implements Sem.
func (s *AstSem) Invoke(e *Engine, st *State, site ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool) {
	d := astDom(st)
	if r, ok := recv.(VIface); ok {
		recv = r.V
	}
	if o, ok := recv.(VOpaque); ok && o.Name == "visitor" && s.mode == "accept" {
		s.Calls++
		arg := args[0]
		own := s.ownMethod()
		a, ok := arg.(VSym)
		switch {
		case ok && a.Path == "self" && own != nil && m.Name() == own.Name():
			d.visited++
			if d.visited > 1 {
				e.report(st, "visit", site.Pos(), "%s is called twice for the element", m.Name())
			}
			if d.left {
				e.report(st, "prune", site.Pos(), "%s is called after something below the element has been visited", m.Name())
			}
			if m.Type().(*types.Signature).Results().Len() == 0 {
				return one(st, VTuple{}), true
			}
			no := st.clone()
			astDom(no).refused = true
			return []Out{{st, VBool(true)}, {no, VBool(false)}}, true
		case ok:
			// the element is presented to the visitor directly: only elements without parts may be
			s.event(e, st, site.Pos(), a.Path)
			if t, okT := a.T.(*types.Pointer); okT && s.leaf(t.Elem()) {
				if m.Type().(*types.Signature).Results().Len() == 0 {
					return one(st, VTuple{}), true
				}
				return one(st, VTop{}), true
			}
			e.report(st, "visit", site.Pos(), "%s is called for a part of the element whose own parts are then not visited", m.Name())
			return one(st, VTop{}), true
		}
		e.report(st, "visit", site.Pos(), "%s is called for something that does not belong to the element", m.Name())
		return one(st, VTop{}), true
	}
	if v, ok := recv.(VSym); ok && m.Name() == "Accept" && s.mode == "accept" {
		s.Calls++
		s.event(e, st, site.Pos(), v.Path)
		s.sameVisitor(e, st, site, args[len(args)-1])
		return one(st, VTuple{}), true
	}
	return nil, false
}

func (s *AstSem) sameVisitor(e *Engine, st *State, site ssa.CallInstruction, v Val) {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	if o, ok := v.(VOpaque); !ok || o.Name != "visitor" {
		e.report(st, "visit", site.Pos(), "the element is sent another visitor than the one given")
	}
}

// leaf tells whether elements of a type have no parts that a visitor reaches.
func (s *AstSem) leaf(t types.Type) bool { return len(visitable(s.p, t, "", 0)) == 0 }

// Call implements Sem.
func (s *AstSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn == nil {
		return nil, false
	}
	switch s.mode {
	case "accept":
		if fn.Name() == "Accept" && fn.Signature.Recv() != nil && s.p.inRepoFn(fn) && fn != s.root || fn == s.root && len(st.frames) > 0 {
			switch v := args[0].(type) {
			case VSym:
				s.Calls++
				if v.Path == "self" {
					e.report(st, "visit", site.Pos(), "the element accepts the visitor again")
				}
				s.event(e, st, site.Pos(), v.Path)
				s.sameVisitor(e, st, site, args[len(args)-1])
				return one(st, VTuple{}), true
			case VNil:
				e.report(st, "panic", site.Pos(), "an absent part accepts the visitor")
				return nil, true
			}
		}
	case "interpret":
		if s.conv[fn] && len(st.frames) > 0 {
			var arg Val
			for _, a := range args {
				if v, ok := a.(VSym); ok {
					arg = v
				}
			}
			if v, ok := arg.(VSym); ok && v.Path != "self" {
				s.Calls++
				res := fn.Signature.Results()
				return one(st, VTuple{[]Val{VConv{v.Path, res.At(0).Type()}, VNil{}}}), true
			}
		}
	}
	if outs, ok := s.sorts(e, st, site, fn, args); ok {
		return outs, true
	}
	return s.strings(e, st, site, fn, args)
}

func first(vs []Val) Val {
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

// sorts judges the functions that sort a list.
func (s *AstSem) sorts(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "sort" || s.mode != "interpret" || len(args) == 0 {
		return nil, false
	}
	switch fn.Name() {
	case "Slice", "SliceStable", "Sort", "Stable":
	default:
		return nil, false
	}
	v := args[0]
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	its, ok := e.items(st, v)
	if !ok || byPosition(site) {
		return nil, false
	}
	if f, ok := first(its).(VFilt); ok {
		e.report(st, "order", site.Pos(), "a list of %s does not keep the elements in source order", typeName(f.E))
		return nil, true
	}
	return nil, false
}

// byPosition tells that a comparison given to a sort looks at positions.
func byPosition(site ssa.CallInstruction) bool {
	for _, a := range site.Common().Args {
		var fn *ssa.Function
		switch v := a.(type) {
		case *ssa.MakeClosure:
			fn = v.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = v
		case *ssa.MakeInterface:
			if n, ok := v.X.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Name() == "Less" {
						fn = site.Parent().Prog.FuncValue(n.Method(i))
					}
				}
				if fn == nil {
					return true
				}
			}
		}
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					t := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if n := t.Underlying().(*types.Struct).Field(fa.Field).Name(); n == "Offset" || n == "Line" || n == "Pos" {
						return true
					}
				}
			}
		}
	}
	return false
}

// strings models functions on strings of known structure.
func (s *AstSem) strings(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "strings" || len(args) == 0 {
		return nil, false
	}
	x, ok := args[0].(VStr)
	if !ok {
		return nil, false
	}
	if _, ok := constStr(x); ok {
		return nil, false
	}
	altered := func() ([]Out, bool) {
		return one(st, VStr{[]Val{VSym{"what " + fn.Name() + " makes of " + encStr(x), types.Typ[types.String]}}}), true
	}
	c := ""
	hasC := false
	if len(args) > 1 {
		c, hasC = constStr(args[1])
	}
	switch fn.Name() {
	case "HasPrefix", "TrimPrefix", "CutPrefix":
		if !hasC || len(x.P) == 0 {
			return nil, false
		}
		k, ok := x.P[0].(VConstStr)
		known, has := false, false
		if ok {
			switch {
			case strings.HasPrefix(string(k), c):
				known, has = true, true
			case !strings.HasPrefix(c, string(k)):
				known, has = true, false
			}
		}
		if !known {
			if fn.Name() == "HasPrefix" {
				return one(st, VTop{}), true
			}
			if fn.Name() == "CutPrefix" {
				return one(st, VTuple{[]Val{VStr{[]Val{VSym{"what CutPrefix makes of " + encStr(x), types.Typ[types.String]}}}, VTop{}}}), true
			}
			return altered()
		}
		cut := func() Val {
			if !has {
				return x
			}
			return strOf(append([]Val{VConstStr(string(k)[len(c):])}, x.P[1:]...)...)
		}
		switch fn.Name() {
		case "HasPrefix":
			return one(st, VBool(has)), true
		case "TrimPrefix":
			return one(st, cut()), true
		}
		return one(st, VTuple{[]Val{cut(), VBool(has)}}), true
	case "HasSuffix", "TrimSuffix", "CutSuffix":
		if !hasC || len(x.P) == 0 {
			return nil, false
		}
		k, ok := x.P[len(x.P)-1].(VConstStr)
		known, has := false, false
		if ok {
			switch {
			case strings.HasSuffix(string(k), c):
				known, has = true, true
			case !strings.HasSuffix(c, string(k)):
				known, has = true, false
			}
		}
		if !known {
			if fn.Name() == "HasSuffix" {
				return one(st, VTop{}), true
			}
			if fn.Name() == "CutSuffix" {
				return one(st, VTuple{[]Val{VStr{[]Val{VSym{"what CutSuffix makes of " + encStr(x), types.Typ[types.String]}}}, VTop{}}}), true
			}
			return altered()
		}
		cut := func() Val {
			if !has {
				return x
			}
			n := len(x.P) - 1
			return strOf(append(append([]Val(nil), x.P[:n]...), VConstStr(string(k)[:len(k)-len(c)]))...)
		}
		switch fn.Name() {
		case "HasSuffix":
			return one(st, VBool(has)), true
		case "TrimSuffix":
			return one(st, cut()), true
		}
		return one(st, VTuple{[]Val{cut(), VBool(has)}}), true
	case "Split":
		if hasC && c != "" {
			return one(st, VSplit{x, c}), true
		}
	case "Trim", "TrimLeft", "TrimRight", "TrimSpace", "TrimFunc", "ToLower", "ToUpper", "ReplaceAll", "Replace", "Title":
		return altered()
	case "SplitN":
		if n, ok := args[2].(VInt); ok && hasC && c != "" {
			if n < 0 {
				return one(st, VSplit{x, c}), true
			}
			return one(st, VSplit{VStr{[]Val{VSym{"what SplitN makes of " + encStr(x), types.Typ[types.String]}}}, c}), true
		}
	case "Fields", "SplitAfter", "SplitAfterN":
		return one(st, VSplit{VStr{[]Val{VSym{"what " + fn.Name() + " makes of " + encStr(x), types.Typ[types.String]}}}, c}), true
	}
	return nil, false
}

// Len implements Sem.
func (s *AstSem) Len(e *Engine, st *State, x Val) (Val, bool) {
	v, ok := x.(VStr)
	if !ok {
		return nil, false
	}
	l := VStrLen{}
	for _, p := range v.P {
		if c, ok := p.(VConstStr); ok {
			l.N += len(c)
		} else {
			l.P = append(l.P, p)
		}
	}
	if len(l.P) == 0 {
		return VInt(l.N), true
	}
	return l, true
}

// Slice implements Sem.
func (s *AstSem) Slice(e *Engine, st *State, in *ssa.Slice, x, lo, hi Val) ([]Out, bool) {
	v, ok := x.(VStr)
	if !ok {
		return nil, false
	}
	l, ok := lo.(VInt)
	if !ok || l < 0 {
		return nil, false
	}
	ps := append([]Val(nil), v.P...)
	cut := int(l)
	drop := 0
	if in.High != nil {
		switch h := hi.(type) {
		case VInt:
			c, ok := VConstStr(""), false
			if len(v.P) > 0 {
				c, ok = v.P[0].(VConstStr)
			}
			if !ok || h < l || int(h) > len(c) {
				return nil, false
			}
			return one(st, strOf(c[l:h])), true
		case VStrLen:
			full, _ := s.Len(e, st, v)
			f, ok := full.(VStrLen)
			if !ok || !sameVal(VTuple{f.P}, VTuple{h.P}) || h.N > f.N {
				return nil, false
			}
			drop = f.N - h.N
		default:
			return nil, false
		}
	}
	for cut > 0 {
		if len(ps) == 0 {
			return nil, false
		}
		c, ok := ps[0].(VConstStr)
		if !ok {
			return nil, false
		}
		if len(c) <= cut {
			cut -= len(c)
			ps = ps[1:]
			continue
		}
		ps[0] = c[cut:]
		cut = 0
	}
	for drop > 0 {
		if len(ps) == 0 {
			return nil, false
		}
		n := len(ps) - 1
		c, ok := ps[n].(VConstStr)
		if !ok {
			return nil, false
		}
		if len(c) <= drop {
			drop -= len(c)
			ps = ps[:n]
			continue
		}
		ps[n] = c[:len(c)-drop]
		drop = 0
	}
	return one(st, strOf(ps...)), true
}

// Index implements Sem: an element of a list that is being filled.
func (s *AstSem) Index(e *Engine, st *State, in ssa.Instruction, x, i Val) ([]Out, bool) {
	if _, ok := i.(VCur); ok {
		return nil, false
	}
	ia, ok := in.(*ssa.IndexAddr)
	if !ok {
		return nil, false
	}
	its, ok := e.items(st, x)
	if !ok || hasSpread(its) < 0 {
		return nil, false
	}
	if n, ok := i.(VInt); ok && int(n) >= 0 && int(n) < hasSpread(its) {
		return nil, false
	}
	t := ia.Type().Underlying().(*types.Pointer).Elem()
	for _, it := range its {
		if l, ok := it.(VSymList); ok {
			return one(st, VSymAddr{"some " + l.Path + "[*]", t}), true
		}
	}
	return one(st, VSymAddr{"some listed[*]", t}), true
}

// Convert implements Sem.
func (s *AstSem) Convert(e *Engine, st *State, in *ssa.Convert, x Val) ([]Out, bool) {
	if v, ok := x.(VSym); ok {
		return one(st, v), true
	}
	return nil, false
}

// Append implements Sem.
func (s *AstSem) Append(e *Engine, st *State, site ssa.CallInstruction, x, y Val) ([]Out, bool) {
	if its, ok := e.items(st, x); ok {
		if len(its) > 200 {
			e.undecided(st, site.Pos(), "the list is not summarised")
			return nil, true
		}
		if f, ok := first(its).(VFilt); ok && s.mode == "interpret" {
			if ys, ok := e.items(st, y); ok {
				for _, v := range ys {
					path := ""
					switch v := v.(type) {
					case VSym:
						path = v.Path
					case VConv:
						path = v.Path
					}
					if path != "" && path != s.body+"[*]" {
						e.report(st, "lost", site.Pos(), "a list of %s gets something that is not an element of %s", typeName(f.E), s.what(s.body))
						return nil, true
					}
				}
			}
		}
		for _, it := range its {
			if l, ok := it.(VSymList); ok && len(its) == 1 {
				if ys, ok := e.items(st, y); ok && len(ys) > 0 && s.mode != "plain" {
					e.report(st, "impure", site.Pos(), "appends to the AST's own list %s", l.Path)
				}
			}
		}
	}
	return nil, false
}

// Finish implements Sem.
func (s *AstSem) Finish(e *Engine, st *State, results []Val) {
	if s.done != nil {
		s.done(e, st, results)
	}
}

// visitable lists the paths of the parts of an element that a visitor has to reach.
func visitable(p *Program, t types.Type, path string, depth int) []string {
	if depth > 5 {
		return nil
	}
	vis := p.typ("parser", "Visitee")
	var it *types.Interface
	if vis != nil {
		it, _ = vis.Underlying().(*types.Interface)
	}
	isVisitee := func(t types.Type) bool {
		if it == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return types.Identical(t, vis)
		}
		_, ptr := t.(*types.Pointer)
		return ptr && types.Implements(t, it)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		q := path + "." + f.Name()
		ft := f.Type()
		if isVisitee(ft) {
			r = append(r, q)
			continue
		}
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if isVisitee(u.Elem()) {
				r = append(r, q+"[*]")
			} else if pt, ok := u.Elem().(*types.Pointer); ok {
				r = append(r, visitable(p, pt.Elem(), q+"[*]", depth+1)...)
			} else {
				r = append(r, visitable(p, u.Elem(), q+"[*]", depth+1)...)
			}
		case *types.Pointer:
			r = append(r, visitable(p, u.Elem(), q, depth+1)...)
		case *types.Struct:
			r = append(r, visitable(p, ft, q, depth+1)...)
		}
	}
	return r
}

func newAstSem(p *Program, self *types.Named, mode string) *AstSem {
	s := &AstSem{p: p, self: self, mode: mode, method: map[string]*types.Func{}, kinds: map[string][]types.Type{}, conv: map[*ssa.Function]bool{}}
	if v := p.typ("parser", "Visitor"); v != nil {
		if it, ok := v.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				sig := m.Type().(*types.Signature)
				if sig.Params().Len() == 1 {
					s.method[typeName(sig.Params().At(0).Type())] = m
				}
			}
		}
	}
	return s
}

// exploreVisitor analyses all Accept methods.
func exploreVisitor(p *Program) (*Report, []*Finding, error) {
	r := &Report{}
	var all []*Finding
	vt := p.typ("parser", "Visitor")
	if vt == nil {
		return nil, nil, fmt.Errorf("parser.Visitor cannot be found")
	}
	states, calls := 0, 0
	var roots, obligations []string
	sp := p.spkgs["parser"]
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		self, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		fn := p.method("parser", name, "Accept")
		if fn == nil || len(fn.Params) != 2 || !types.Identical(fn.Params[1].Type(), vt) {
			continue
		}
		s := newAstSem(p, self, "accept")
		s.root = fn
		e := newEngine(p)
		e.sem = s
		e.setupGlobals()
		e.root = short(fn)
		want := visitable(p, self, "self", 0)
		own := s.ownMethod()
		s.done = func(e *Engine, st *State, res []Val) {
			d := astDom(st)
			if own != nil && d.visited == 0 {
				e.report(st, "visit", fn.Pos(), "%s can return without calling %s", short(fn), own.Name())
				return
			}
			if d.refused {
				return
			}
			for _, w := range want {
				what := name + strings.TrimPrefix(w, "self")
				if i := strings.Index(w, "[*]"); i >= 0 {
					l := w[:i]
					switch d.lists[l] {
					case "empty", "all":
					case "":
						if s.absent(d, l) {
							continue
						}
						e.report(st, "visit", fn.Pos(), "%s is never visited", what)
					default:
						e.report(st, "visit", fn.Pos(), "%s is not visited for every element of the list", what)
					}
					continue
				}
				if d.count[w] == 0 && d.facts[w] != "nil" && !s.absent(d, w) {
					e.report(st, "visit", fn.Pos(), "%s is not visited although it may be present", what)
				}
			}
			wanted := map[string]bool{}
			for _, w := range want {
				wanted[w] = true
			}
			for w := range d.count {
				if d.count[w] > 0 && !wanted[w] {
					e.report(st, "visit", fn.Pos(), "%s is visited although it is no part of the element", w)
				}
			}
		}
		st := e.newState()
		st.dom = newAstDom()
		e.push(st, fn, []Val{VSym{"self", types.NewPointer(self)}, VIface{types.Typ[types.UnsafePointer], VOpaque{"visitor"}}}, nil, nil)
		e.explore(st)
		all = append(all, e.findings()...)
		states += e.States
		calls += s.Calls
		roots = append(roots, short(fn))
		for _, w := range want {
			obligations = append(obligations, name+strings.TrimPrefix(w, "self"))
		}
	}
	// every visitor method is the own method of a visitee
	for tname, m := range newAstSem(p, nil, "accept").method {
		found := false
		for _, ro := range roots {
			if ro == "("+tname+").Accept" {
				found = true
			}
		}
		if !found {
			all = append(all, p.finding("visit", m.Pos(), nil, "no element dispatches itself to %s", m.Name()))
		}
	}
	r.cover("accept_methods_interpreted", roots)
	r.cover("parts_that_must_be_visited", obligations)
	r.cover("abstract_states", states)
	r.cover("visitor_calls_classified", calls)
	return r, all, nil
}

func (s *AstSem) absent(d *AstDom, path string) bool {
	for i := strings.LastIndex(path, "."); i > 0; i = strings.LastIndex(path[:i], ".") {
		if d.facts[path[:i]] == "nil" {
			return true
		}
	}
	return false
}

func checkC22(p *Program, tier string) (*Report, error) {
	r, fs, err := exploreVisitor(p)
	if err != nil {
		return nil, err
	}
	r.Rule = "abstract interpretation of every Accept method over an AST of unknown shape: on every path on which the visitor continues, each part of the element's type that is a visitee is sent to the same visitor exactly once (list elements: once per element of a complete iteration), absent parts and everything else never"
	for _, f := range fs {
		if f.Cat == "visit" || f.Cat == "undecided" || f.Cat == "panic" || f.Cat == "loop" {
			r.add(f)
		}
	}
	r.Assume = []string{"the lists of an AST hold no nil elements (C05)", "the elements below are covered by the analysis of their own Accept method (induction over the AST)"}
	return r, nil
}

func checkC23(p *Program, tier string) (*Report, error) {
	r, fs, err := exploreVisitor(p)
	if err != nil {
		return nil, err
	}
	r.Rule = "abstract interpretation of every Accept method over an AST of unknown shape: the element's own visitor method is called first, and on every path on which it returns false nothing below the element is visited; a part that is absent is never visited"
	for _, f := range fs {
		if f.Cat == "prune" || f.Cat == "undecided" || f.Cat == "panic" || strings.Contains(f.Msg, "can return without calling") {
			r.add(f)
		}
	}
	r.Assume = []string{"the elements below are covered by the analysis of their own Accept method (induction over the AST)"}
	return r, nil
}

func init() {
	checks["C22"] = Check{"other", checkC22}
	checks["C23"] = Check{"other", checkC23}
}

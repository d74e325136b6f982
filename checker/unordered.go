package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bodyKinds lists the element types of the bodies (see C05).
var bodyKinds = map[string][]string{
	"Proto":   {"Import", "Package", "Option", "Message", "Extend", "Enum", "Service", "EmptyStatement", "Comment"},
	"Message": {"Field", "Enum", "Message", "Option", "Oneof", "MapField", "GroupField", "Reserved", "Extend", "EmptyStatement", "Extensions", "Comment"},
	"Enum":    {"Option", "EnumField", "Reserved", "EmptyStatement", "Comment"},
	"Service": {"Option", "RPC", "EmptyStatement", "Comment"},
	"Extend":  {"Field", "EmptyStatement", "Comment"},
}

// parserType is the parser type of the elements of a resulting list.
func (s *AstSem) parserType(e types.Type) (t types.Type, conv, ok bool) {
	pt, isP := e.(*types.Pointer)
	if !isP {
		return nil, false, false
	}
	n, isN := pt.Elem().(*types.Named)
	if !isN || n.Obj().Pkg() == nil {
		return nil, false, false
	}
	if strings.HasSuffix(n.Obj().Pkg().Path(), "/interpret/unordered") {
		q := s.p.typ("parser", n.Obj().Name())
		if q == nil {
			return nil, false, false
		}
		return types.NewPointer(q), true, true
	}
	return e, false, true
}

func (s *AstSem) full(st *State) {
	for o, v := range st.heap {
		if a, ok := v.(VArr); ok {
			var n []Val
			for i, it := range a.E {
				if f, ok := it.(VFilt); ok && f.Path == s.body && !f.Full {
					if n == nil {
						n = append([]Val(nil), a.E...)
					}
					f.Full = true
					n[i] = f
				}
			}
			if n != nil {
				st.heap[o] = VArr{n}
			}
		}
	}
}

// LoopHead implements Sem: the lists filled from a body are summarised at the head of the loop over it.
func (s *AstSem) LoopHead(e *Engine, st *State) bool {
	if s.mode == "accept" {
		s.foldGathered(e, st)
	}
	if s.mode != "interpret" {
		return true
	}
	d := astDom(st)
	f := st.top()
	iterating := false
	for i := 0; i < firstNonPhi(f.block); i++ {
		if c, ok := cursorOf(f.regs[f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]]); ok {
			if v, ok := getPath(st.heap[c.Obj], pathSplit(c.Path)); ok {
				if a, ok := v.(VArr); ok && c.K < len(a.E) {
					if l, ok := a.E[c.K].(VSymList); ok && l.Path == s.body {
						iterating = true
					}
				}
			}
		}
	}
	in := strings.HasPrefix(d.lists[s.body], "in") || d.lists[s.body] == "again" || d.lists[s.body] == "mixed"
	if in && !iterating {
		return true
	}
	w := &folder{s: s, e: e, st: st, seen: map[int]bool{}, in: in}
	for _, fr := range st.frames {
		for v, k := range fr.fi.idx {
			if fr.regs[k] != nil {
				fr.regs[k] = w.val(fr.regs[k], v.Type())
			}
		}
	}
	return true
}

// foldGathered summarises lists into which the elements of a list of the AST are put one by one.
func (s *AstSem) foldGathered(e *Engine, st *State) {
	f := st.top()
	own := map[int]bool{}
	for _, v := range astDom(st).slices {
		if sl, ok := v.(VSlice); ok {
			own[sl.Obj] = true
		}
	}
	for i := 0; i < firstNonPhi(f.block); i++ {
		c, ok := cursorOf(f.regs[f.fi.idx[f.block.Instrs[i].(*ssa.Phi)]])
		if !ok {
			continue
		}
		v, ok := getPath(st.heap[c.Obj], pathSplit(c.Path))
		if !ok {
			continue
		}
		src, ok := v.(VArr)
		if !ok || c.K >= len(src.E) {
			continue
		}
		l, ok := src.E[c.K].(VSymList)
		if !ok || !own[c.Obj] {
			continue
		}
		some := VSymList{"some of " + l.Path, l.T}
		is := func(v Val) bool {
			if i, ok := v.(VIface); ok {
				v = i.V
			}
			x, ok := v.(VSym)
			return ok && x.Path == l.Path+"[*]"
		}
		for _, o := range e.wholeArrays(st) {
			a := st.heap[o].(VArr).E
			if own[o] || o == c.Obj || len(a) == 0 {
				continue
			}
			n := len(a) - 1
			fresh := is(a[n])
			prev := n - 1
			if !fresh {
				prev = n
			}
			var last Val
			if prev >= 0 {
				last = a[prev]
			}
			out := append([]Val(nil), a...)
			switch {
			case fresh && c.First:
				out[n] = l
			case fresh && (last == Val(l) || last == Val(some)):
				out = out[:n]
			case fresh:
				out[n] = some
			case !c.First && last == Val(l):
				out[n] = some
			default:
				continue
			}
			st.heap[o] = VArr{out}
		}
	}
}

type folder struct {
	s    *AstSem
	e    *Engine
	st   *State
	seen map[int]bool
	in   bool
}

func (w *folder) val(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VNil, VSlice:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			return w.list(v, sl.Elem())
		}
	case VPtr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && x.Path == "" && x.Obj >= w.e.nbase && !w.seen[x.Obj] {
			w.seen[x.Obj] = true
			n := w.val(w.st.heap[x.Obj], pt.Elem())
			w.st.heap[x.Obj] = n
		}
	case VStruct:
		if stt, ok := t.Underlying().(*types.Struct); ok && stt.NumFields() == len(x.F) {
			f := append([]Val(nil), x.F...)
			for i := range f {
				f[i] = w.val(f[i], stt.Field(i).Type())
			}
			return VStruct{f}
		}
	case VFn:
		if len(x.B) == len(x.Fn.FreeVars) {
			for i := range x.B {
				w.val(x.B[i], x.Fn.FreeVars[i].Type())
			}
		}
	}
	return v
}

// list summarises a list of elements of type E.
func (w *folder) list(v Val, et types.Type) Val {
	s, e, st := w.s, w.e, w.st
	pt, conv, ok := s.parserType(et)
	if !ok {
		return v
	}
	isKind := false
	for _, k := range s.kinds[s.body] {
		isKind = isKind || types.Identical(k, pt)
	}
	if !isKind {
		return v
	}
	its, ok := e.items(st, v)
	if !ok {
		return v
	}
	for _, it := range its {
		if l, ok := it.(VSymList); ok && l.Path != "" {
			return v // a list of the AST itself
		}
	}
	filt := VFilt{Path: s.body, E: et, Conv: conv}
	if len(its) == 0 {
		its = []Val{filt}
		v = nil
	}
	f, ok := its[0].(VFilt)
	if !ok {
		// put in front, or foreign elements
		if w.in && len(its) > 1 {
			e.report(st, "order", e.pos(st), "a list of %s does not keep the elements in source order", typeName(et))
		}
		return v
	}
	if f.Full || !types.Identical(f.E, et) {
		return v
	}
	rest := its[1:]
	if w.in {
		d := astDom(st)
		name := typeName(pt)
		fact := d.facts["type "+s.body+"[*]"]
		is, maybe := fact == "="+name, false
		if !strings.HasPrefix(fact, "=") && !strings.Contains(fact+"!", "!"+name+"!") {
			maybe = true
		}
		ok := true
		for _, r := range rest {
			switch r := r.(type) {
			case VSym:
				ok = ok && r.Path == s.body+"[*]" && !conv
			case VConv:
				ok = ok && r.Path == s.body+"[*]" && conv
			default:
				ok = false
			}
		}
		switch {
		case !ok:
			e.report(st, "lost", e.pos(st), "a list of %s gets something that is not an element of %s", typeName(et), s.what(s.body))
		case (is || maybe) && len(rest) == 0:
			e.report(st, "lost", e.pos(st), "elements of %s of type %s get lost", s.what(s.body), name)
		case is && len(rest) > 1:
			e.report(st, "lost", e.pos(st), "elements of %s of type %s are duplicated", s.what(s.body), name)
		case !is && !maybe && len(rest) > 0:
			e.report(st, "lost", e.pos(st), "a list of %s gets elements of %s of another type", typeName(et), s.what(s.body))
		}
	} else if len(rest) > 0 {
		return v
	}
	if len(rest) == 0 && v != nil {
		return v
	}
	return e.newSlice(st, []Val{f})
}

func (s *AstSem) what(path string) string {
	return s.self.Obj().Name() + strings.TrimPrefix(path, "self")
}

// exploreUnordered analyses the interpretation of every element.
func exploreUnordered(p *Program) (*Report, []*Finding, error) {
	r := &Report{}
	var all []*Finding
	const pkg = "interpret/unordered"
	up := p.spkgs[pkg]
	if up == nil {
		return nil, nil, fmt.Errorf("package %s cannot be found", pkg)
	}
	conv := map[*ssa.Function]*types.Named{} // -> parser type
	for _, fn := range p.fns {
		if p.pkgOf(fn) != pkg || fn.Parent() != nil || fn.Signature.Results().Len() != 2 || len(fn.Params) != 1 {
			continue
		}
		u, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok || fn.Signature.Results().At(1).Type().String() != "error" {
			continue
		}
		n, ok := u.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() != up.Pkg {
			continue
		}
		q := p.typ("parser", n.Obj().Name())
		if q == nil || !isPtrTo(fn.Params[0].Type(), q) || !fn.Object().Exported() {
			continue
		}
		conv[fn] = q
	}
	var fns []*ssa.Function
	for fn := range conv {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	vis := p.typ("parser", "Visitee")
	states, calls := 0, 0
	var roots, obligations []string
	for _, fn := range fns {
		self := conv[fn]
		s := newAstSem(p, self, "interpret")
		s.root = fn
		for f := range conv {
			s.conv[f] = true
		}
		src := self.Underlying().(*types.Struct)
		for i := 0; i < src.NumFields(); i++ {
			if sl, ok := src.Field(i).Type().(*types.Slice); ok && types.Identical(sl.Elem(), vis) {
				s.body = "self." + src.Field(i).Name()
			}
		}
		for _, k := range bodyKinds[self.Obj().Name()] {
			if t := p.typ("parser", k); t != nil {
				s.kinds[s.body] = append(s.kinds[s.body], types.NewPointer(t))
			}
		}
		e := newEngine(p)
		e.sem = s
		e.setupGlobals()
		e.root = short(fn)
		ut := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem().(*types.Named)
		us := ut.Underlying().(*types.Struct)
		for i := 0; i < src.NumFields(); i++ {
			name := src.Field(i).Name()
			if fieldIndex(ut, name) < 0 && src.Field(i).Exported() {
				all = append(all, p.finding("lost", fn.Pos(), fn, "%s.%s has no place in the unordered form", self.Obj().Name(), name))
			}
			obligations = append(obligations, self.Obj().Name()+"."+name)
		}
		s.done = func(e *Engine, st *State, res []Val) {
			d := astDom(st)
			if _, isNil := res[1].(VNil); !isNil {
				kind := d.facts["type "+s.body+"[*]"]
				e.report(st, "refuse", fn.Pos(), "%s can fail on a parsed %s (element type %s)", short(fn), self.Obj().Name(), s.kindText(kind))
				return
			}
			ptr, ok := res[0].(VPtr)
			if !ok {
				e.report(st, "lost", fn.Pos(), "%s can return %s without an error", short(fn), encStr(res[0]))
				return
			}
			got, ok := st.load(ptr)
			gs, ok2 := got.(VStruct)
			if !ok || !ok2 {
				e.undecided(st, fn.Pos(), "the result of %s is not understood", short(fn))
				return
			}
			for i := 0; i < us.NumFields(); i++ {
				f := us.Field(i)
				what := "unordered." + ut.Obj().Name() + "." + f.Name()
				if "self."+f.Name() == s.body {
					s.checkBody(e, st, fn, what, gs.F[i], f.Type())
					continue
				}
				if fieldIndex(self, f.Name()) < 0 {
					continue
				}
				s.checkCopy(e, st, fn, what, gs.F[i], "self."+f.Name(), f.Type())
			}
		}
		run := func(arg Val) {
			st := e.newState()
			st.dom = newAstDom()
			e.push(st, fn, []Val{arg}, nil, nil)
			e.explore(st)
		}
		run(VSym{"self", types.NewPointer(self)})
		s.done = nil
		run(VNil{})
		all = append(all, e.findings()...)
		states += e.States
		calls += s.Calls
		roots = append(roots, short(fn))
	}
	for _, k := range sortedKeys(bodyKinds) {
		found := false
		for _, q := range conv {
			found = found || q.Obj().Name() == k
		}
		if !found {
			return nil, nil, fmt.Errorf("no interpretation of %s can be found", k)
		}
	}
	r.cover("functions_interpreted", roots)
	r.cover("fields_and_bodies_compared", obligations)
	r.cover("abstract_states", states)
	r.cover("conversions_of_elements_classified", calls)
	return r, all, nil
}

func (s *AstSem) kindText(f string) string {
	if k, ok := strings.CutPrefix(f, "="); ok {
		return k
	}
	var left []string
	for _, k := range s.kinds[s.body] {
		if !strings.Contains(f+"!", "!"+typeName(k)+"!") {
			left = append(left, typeName(k))
		}
	}
	return strings.Join(left, " or ")
}

// checkCopy checks that a field of the result is the part of the AST it corresponds to.
func (s *AstSem) checkCopy(e *Engine, st *State, fn *ssa.Function, what string, v Val, path string, t types.Type) {
	d := astDom(st)
	ok := false
	switch u := t.Underlying().(type) {
	case *types.Slice:
		its, good := e.items(st, v)
		if good && len(its) == 1 {
			l, isL := its[0].(VSymList)
			ok = isL && l.Path == path
		}
		if good && len(its) == 0 && (d.lists[path] == "empty") {
			ok = true
		}
	case *types.Struct:
		if sv, isS := v.(VStruct); isS && len(sv.F) == u.NumFields() {
			for i := range sv.F {
				s.checkCopy(e, st, fn, what+"."+u.Field(i).Name(), sv.F[i], path+"."+u.Field(i).Name(), u.Field(i).Type())
			}
			return
		}
		if y, isY := v.(VSym); isY {
			ok = y.Path == path
		}
	case *types.Basic:
		if sv, isS := v.(VStr); isS {
			if len(sv.P) == 1 {
				y, isY := sv.P[0].(VSym)
				ok = isY && y.Path == path
			}
			if c, isC := constStr(v); isC && d.facts[path] == "="+c {
				ok = true
			}
		} else if y, isY := v.(VSym); isY {
			ok = y.Path == path
		}
	default:
		switch y := v.(type) {
		case VSym:
			ok = y.Path == path
		case VNil:
			ok = d.facts[path] == "nil"
		}
	}
	if !ok {
		if _, top := v.(VTop); top {
			e.undecided(st, fn.Pos(), "%s is not understood", what)
			return
		}
		e.report(st, "lost", fn.Pos(), "%s is not the %s of the source element", what, strings.TrimPrefix(path, "self."))
	}
}

// checkBody checks the lists of a body.
func (s *AstSem) checkBody(e *Engine, st *State, fn *ssa.Function, what string, v Val, t types.Type) {
	ptr, ok := v.(VPtr)
	pt, ok2 := t.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		e.report(st, "lost", fn.Pos(), "%s is missing", what)
		return
	}
	got, _ := st.load(ptr)
	b, ok := got.(VStruct)
	bt, ok2 := pt.Elem().Underlying().(*types.Struct)
	if !ok || !ok2 {
		e.undecided(st, fn.Pos(), "%s is not understood", what)
		return
	}
	covered := map[string]int{}
	for i := 0; i < bt.NumFields(); i++ {
		f := bt.Field(i)
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		q, conv, ok := s.parserType(sl.Elem())
		if !ok {
			continue
		}
		covered[typeName(q)]++
		its, ok := e.items(st, b.F[i])
		w := what + "." + f.Name()
		if !ok {
			e.undecided(st, fn.Pos(), "%s is not understood", w)
			continue
		}
		if len(its) == 0 {
			if astDom(st).lists[s.body] != "empty" {
				e.report(st, "lost", fn.Pos(), "%s does not get the elements of %s", w, s.what(s.body))
			}
			continue
		}
		fl, isF := its[0].(VFilt)
		switch {
		case len(its) != 1 || !isF:
			e.report(st, "lost", fn.Pos(), "%s does not consist of the elements of %s of its type", w, s.what(s.body))
		case !types.Identical(fl.E, sl.Elem()) || fl.Conv != conv || fl.Path != s.body:
			e.report(st, "lost", fn.Pos(), "%s gets other elements than those of its type", w)
		case !fl.Full:
			e.report(st, "lost", fn.Pos(), "%s does not get all elements of %s", w, s.what(s.body))
		}
	}
	for _, k := range s.kinds[s.body] {
		if covered[typeName(k)] == 0 {
			e.report(st, "lost", fn.Pos(), "%s has no list for elements of type %s", what, typeName(k))
		}
	}
}

func checkC24(p *Program, tier string) (*Report, error) {
	r, fs, err := exploreUnordered(p)
	if err != nil {
		return nil, err
	}
	r.Rule = "abstract interpretation of every Interpret function over an AST of unknown shape with a body of arbitrarily many elements: at every step of the iteration each list of the result is exactly the elements seen so far of its own type in order (loop invariant, checked inductively), it is complete when the function returns, and every other field is the field of the same name of the source element"
	for _, f := range fs {
		if f.Cat != "refuse" {
			r.add(f)
		}
	}
	r.Assume = []string{"bodies hold the element types the grammar gives them and no nil elements (C05)", "the conversion of elements below is covered by the analysis of their own function (induction over the AST)"}
	return r, nil
}

func checkC25(p *Program, tier string) (*Report, error) {
	r, fs, err := exploreUnordered(p)
	if err != nil {
		return nil, err
	}
	r.Rule = "abstract interpretation of every Interpret function over an AST of unknown shape whose body holds every element type that a parser can put there (comments included): no path returns an error or panics"
	for _, f := range fs {
		if f.Cat == "refuse" || f.Cat == "undecided" || f.Cat == "panic" || f.Cat == "loop" {
			r.add(f)
		}
	}
	r.Assume = []string{"bodies hold the element types the grammar gives them (C05)", "the conversion of elements below is covered by the analysis of their own function (induction over the AST)"}
	return r, nil
}

// checkC32 interprets Syntax.Version for every version string.
func checkC32(p *Program, tier string) (*Report, error) {
	r := &Report{Rule: "abstract interpretation of Syntax.Version over an unknown version string, split only by the comparisons the code makes: on the path of \"protoN\" (N = 2, 3) the result is N, on every other path it is 0"}
	self := p.typ("parser", "Syntax")
	fn := p.method("parser", "Syntax", "Version")
	if self == nil || fn == nil {
		return nil, fmt.Errorf("parser.Syntax.Version cannot be found")
	}
	const path = "self.ProtobufVersion"
	want := map[string]int64{"proto2": 2, "proto3": 3}
	var paths []string
	states := 0
	run := func(fact string, exact bool) []*Finding {
		s := newAstSem(p, self, "plain")
		e := newEngine(p)
		e.sem = s
		e.setupGlobals()
		e.root = short(fn)
		s.done = func(e *Engine, st *State, res []Val) {
			f := astDom(st).facts[path]
			n, ok := res[0].(VInt)
			if !ok {
				e.undecided(st, fn.Pos(), "the result is not understood")
				return
			}
			paths = append(paths, fmt.Sprintf("%s -> %d", f, n))
			if c, ok := strings.CutPrefix(f, "="); ok {
				if int64(n) != want[c] {
					e.report(st, "version", fn.Pos(), "Version of %q is %d", c, n)
				}
				return
			}
			if !exact {
				return
			}
			if n != 0 {
				e.report(st, "version", fn.Pos(), "Version can be %d for a string that is no version (%s)", n, f)
			}
			for _, k := range sortedKeys(want) {
				if !strings.Contains(f+"!", "!"+k+"!") && int64(n) != want[k] {
					e.report(st, "version", fn.Pos(), "Version of %q can be %d", k, n)
				}
			}
		}
		st := e.newState()
		d := newAstDom()
		if fact != "" {
			d.facts[path] = fact
		}
		st.dom = d
		var recv Val = VSym{"self", types.NewPointer(self)}
		if _, isP := fn.Params[0].Type().(*types.Pointer); !isP {
			recv = s.part(st, "self", self)[0].v
		}
		e.push(st, fn, []Val{recv}, nil, nil)
		e.explore(st)
		states += e.States
		return e.findings()
	}
	seen := map[string]bool{}
	add := func(fs []*Finding) {
		for _, f := range fs {
			if !seen[f.Cat+f.Msg] {
				seen[f.Cat+f.Msg] = true
				r.add(f)
			}
		}
	}
	// a string about which only what the code compares is known
	plain := onlyCompares(p, fn, map[*ssa.Function]bool{})
	if !plain {
		r.add(&Finding{Cat: "undecided", Msg: "Version looks into the text: it is decided for the texts that are made from the constants of the code", Pos: fn.Pos()})
	}
	for _, f := range run("", plain) {
		if plain || f.Cat != "panic" {
			add([]*Finding{f})
		}
	}
	// the texts that the code's constants suggest
	texts := map[string]bool{"": true, "proto2": true, "proto3": true, "proto1": true, "proto4": true, "proto": true, "2": true, "3": true, "edition": true, "proto03": true}
	for c := range stringsOf(p, fn, map[*ssa.Function]bool{}) {
		texts[c] = true
	}
	for _, t := range sortedKeys(texts) {
		for _, v := range []string{t, strings.ToUpper(t), strings.Title(t), t + "x", t + " ", " " + t, t + "0", "x" + t, "proto" + t} {
			texts[v] = true
		}
	}
	for _, t := range sortedKeys(texts) {
		add(run("="+t, true))
	}
	sort.Strings(paths)
	r.cover("paths", paths)
	r.cover("abstract_states", states)
	r.cover("functions", []string{short(fn)})
	r.Assume = []string{"the parser accepts exactly proto2 and proto3 (C01)"}
	return r, nil
}

// callees calls f for the functions of the repository that fn calls, and tells
// whether there are others.
func callees(p *Program, fn *ssa.Function, f func(*ssa.Function)) (others bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && g.Pkg == fn.Pkg {
				f(g)
				continue
			}
			others = true
		}
	}
	return others
}

// onlyCompares tells whether a function does nothing with texts but to compare
// them as a whole.
func onlyCompares(p *Program, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	ok := true
	if callees(p, fn, func(g *ssa.Function) { ok = ok && onlyCompares(p, g, seen) }) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp:
				if bt, is := v.X.Type().Underlying().(*types.Basic); is && bt.Info()&types.IsString != 0 && v.Op != token.EQL && v.Op != token.NEQ {
					return false
				}
			case *ssa.Slice:
				if isText(v.X.Type()) {
					return false
				}
			case *ssa.Index:
				if isText(v.X.Type()) {
					return false
				}
			case *ssa.Lookup, *ssa.Convert, *ssa.Range:
				return false
			}
		}
	}
	return ok
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// stringsOf collects the constant texts of a function and those it calls.
func stringsOf(p *Program, fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	r := map[string]bool{}
	if seen[fn] {
		return r
	}
	seen[fn] = true
	callees(p, fn, func(g *ssa.Function) {
		for s := range stringsOf(p, g, seen) {
			r[s] = true
		}
	})
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(ops[:0]) {
				if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && len(constant.StringVal(c.Value)) < 20 {
					r[constant.StringVal(c.Value)] = true
				}
			}
		}
	}
	return r
}

// checkC31 interprets the text accessors of comments.
func checkC31(p *Program, tier string) (*Report, error) {
	r := &Report{Rule: "abstract interpretation of Comment.IsCStyle and Comment.Lines over every comment text, given as its opening marker, unknown text and (block comments) its closing marker: the style is the marker's, and the lines are the unknown text itself split at line ends"}
	self := p.typ("parser", "Comment")
	isC, lines := p.method("parser", "Comment", "IsCStyle"), p.method("parser", "Comment", "Lines")
	if self == nil || isC == nil || lines == nil {
		return nil, fmt.Errorf("the text accessors of parser.Comment cannot be found")
	}
	body := VSym{"text", types.Typ[types.String]}
	obl := 0
	for _, style := range []string{"//", "/*"} {
		raw := strOf(VConstStr("//"), body)
		if style == "/*" {
			raw = strOf(VConstStr("/*"), body, VConstStr("*/"))
		}
		for _, fn := range []*ssa.Function{isC, lines} {
			fn := fn
			s := newAstSem(p, self, "plain")
			e := newEngine(p)
			e.sem = s
			e.setupGlobals()
			e.root = short(fn)
			s.done = func(e *Engine, st *State, res []Val) {
				obl++
				if fn == isC {
					b, ok := res[0].(VBool)
					if !ok {
						e.undecided(st, fn.Pos(), "the result is not understood")
					} else if bool(b) != (style == "/*") {
						e.report(st, "comment", fn.Pos(), "IsCStyle is %v for a comment that starts with %s", bool(b), style)
					}
					return
				}
				v, ok := res[0].(VSplit)
				switch {
				case !ok:
					if its, good := e.items(st, res[0]); good && hasSpread(its) < 0 && len(e.finds) == 0 {
						e.report(st, "comment", fn.Pos(), "Lines has a fixed number of lines for a %s comment", style)
						return
					}
					e.undecided(st, fn.Pos(), "the result is not understood (%s)", encStr(res[0]))
				case !sameVal(v.S, VStr{[]Val{body}}):
					if str, isStr := v.S.(VStr); isStr {
						for _, q := range str.P {
							if _, top := q.(VTop); top {
								e.undecided(st, fn.Pos(), "the result is not understood")
								return
							}
						}
					}
					e.report(st, "comment", fn.Pos(), "Lines of a %s comment splits %s instead of the text between the markers", style, s.showText(v.S))
				case v.Sep != "\n":
					e.report(st, "comment", fn.Pos(), "Lines of a %s comment splits at %q", style, v.Sep)
				}
			}
			st := e.newState()
			st.dom = newAstDom()
			z := zeroVal(self).(VStruct)
			f := append([]Val(nil), z.F...)
			k := fieldIndex(self, "Raw")
			if k < 0 {
				return nil, fmt.Errorf("parser.Comment has no field Raw")
			}
			f[k] = raw
			var recv Val = VPtr{st.alloc(VStruct{f}), ""}
			if _, isP := fn.Params[0].Type().(*types.Pointer); !isP {
				recv = VStruct{f}
			}
			e.push(st, fn, []Val{recv}, nil, nil)
			e.explore(st)
			fs := e.findings()
			open := false
			for _, f := range fs {
				open = open || f.Cat == "undecided"
			}
			for _, f := range fs {
				// what has not been followed may be what makes the lines
				if !open || !strings.HasPrefix(f.Msg, "Lines has a fixed") {
					r.add(f)
				}
			}
		}
	}
	r.cover("paths", obl)
	r.cover("functions", []string{short(isC), short(lines)})
	r.Assume = []string{"the raw text of every comment is // followed by a line or /* ... */ (C19)", "strings.HasPrefix, TrimPrefix, TrimSuffix, CutPrefix, CutSuffix and Split do what their documentation says"}
	return r, nil
}

func (s *AstSem) showText(v Val) string {
	str, ok := v.(VStr)
	if !ok {
		return encStr(v)
	}
	var ps []string
	for _, p := range str.P {
		switch p := p.(type) {
		case VConstStr:
			ps = append(ps, fmt.Sprintf("%q", string(p)))
		case VSym:
			ps = append(ps, p.Path)
		default:
			ps = append(ps, encStr(p))
		}
	}
	return strings.Join(ps, "+")
}

func init() {
	checks["C24"] = Check{"other", checkC24}
	checks["C25"] = Check{"other", checkC25}
	checks["C31"] = Check{"other", checkC31}
	checks["C32"] = Check{"other", checkC32}
}

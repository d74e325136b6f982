package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls lists the functions of the repository a function calls or refers to.
func (p *Program) calls(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if f, ok := (*o).(*ssa.Function); ok && p.inRepoFn(f) && !seen[f] {
					seen[f] = true
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// methodsOf lists the methods of a type of the repository.
func (p *Program) methodsOf(pkg, typ string) []*ssa.Function {
	t := p.typ(pkg, typ)
	if t == nil {
		return nil
	}
	var r []*ssa.Function
	for i := 0; i < t.NumMethods(); i++ {
		if f := p.method(pkg, typ, t.Method(i).Name()); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// findNTs finds the parsers of the elements.
func (s *TokSem) findNTs() (missing []string) {
	p := s.p
	s.nts = map[*ssa.Function]*NT{}
	s.ntByName = map[string]*NT{}
	methods := p.methodsOf("parser", "Parser")
	add := func(name string, fn *ssa.Function, t types.Type) {
		nt := &NT{name: name, fn: fn, typ: t, first: s.lx.first2(name)}
		nt.optional = name == "Syntax" || name == "Edition"
		s.nts[fn] = nt
		s.ntByName[name] = nt
	}
	for _, name := range append([]string{"Proto"}, ntNames...) {
		t := p.typ("parser", name)
		if t == nil {
			missing = append(missing, name)
			continue
		}
		var cand []*ssa.Function
		var exported *ssa.Function
		for _, fn := range methods {
			sig := fn.Signature
			res := sig.Results()
			if sig.Params().Len() != 0 || res.Len() != 2 || !types.Identical(res.At(0).Type(), types.NewPointer(t)) || res.At(1).Type().String() != "error" {
				continue
			}
			cand = append(cand, fn)
			if fn.Name() == "Parse"+name {
				exported = fn
			}
		}
		if exported == nil && len(cand) > 1 {
			// the outermost one
			called := map[*ssa.Function]bool{}
			for _, c := range cand {
				for _, f := range p.calls(c) {
					if f != c {
						called[f] = true
					}
				}
			}
			var out []*ssa.Function
			for _, c := range cand {
				if !called[c] {
					out = append(out, c)
				}
			}
			if len(out) > 1 {
				for _, c := range out {
					if strings.EqualFold(c.Name(), "parse"+name) {
						out = []*ssa.Function{c}
						break
					}
				}
			}
			cand = out
		}
		switch {
		case exported != nil:
			add(name, exported, t)
		case len(cand) == 1:
			add(name, cand[0], t)
		default:
			missing = append(missing, name)
		}
	}
	if fn := s.findConstant(); fn != nil {
		add("Constant", fn, nil)
	} else {
		missing = append(missing, "Constant")
	}
	return missing
}

func (lx *Lex) first2(name string) CSet {
	if name == "Proto" {
		return lx.all
	}
	return lx.first(name)
}

// findConstant finds the recursive parser of constants.
func (s *TokSem) findConstant() *ssa.Function {
	p := s.p
	var fns []*ssa.Function
	idx := map[*ssa.Function]int{}
	for _, fn := range p.fns {
		if p.pkgOf(fn) == "parser" && s.nts[fn] == nil {
			idx[fn] = len(fns)
			fns = append(fns, fn)
		}
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		todo := []*ssa.Function{from}
		for len(todo) > 0 {
			f := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, g := range p.calls(f) {
				if _, ok := idx[g]; ok && !seen[g] {
					seen[g] = true
					todo = append(todo, g)
				}
			}
		}
		return seen
	}
	r := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range fns {
		r[fn] = reach(fn)
	}
	score := func(fn *ssa.Function) int {
		n := 0
		for _, g := range append(append([]*ssa.Function(nil), fns...), s.ntFns()...) {
			if g == fn || r[fn][g] && r[g] != nil && r[g][fn] {
				continue
			}
			for _, h := range p.calls(g) {
				if h == fn {
					n++
				}
			}
		}
		return n
	}
	var best *ssa.Function
	bestN := 0
	for _, fn := range fns {
		res := fn.Signature.Results()
		if !r[fn][fn] || res.Len() < 2 || res.At(res.Len()-1).Type().String() != "error" {
			continue
		}
		b, ok := res.At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			continue
		}
		basic := true
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
				basic = false
			}
		}
		if n := score(fn); basic && n > bestN {
			best, bestN = fn, n
		}
	}
	return best
}

func (s *TokSem) ntFns() []*ssa.Function {
	var r []*ssa.Function
	for f := range s.nts {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func (p *Program) pkgOf(fn *ssa.Function) string {
	for rel, pk := range p.pkgs {
		if fn.Pkg != nil && pk.Types == fn.Pkg.Pkg {
			return rel
		}
	}
	return "?"
}

// TokResult is what the token analysis found.
type TokResult struct {
	Findings map[string][]*Finding // by configuration "P B"
	Roots    int
	States   int
	Returns  int
	Commits  int
	Folds    int
	Funcs    map[*ssa.Function]bool
	Missing  []string
	Names    []string
	Edges    int
}

// newTokSem makes the semantics with the primitives of the scanner.
func newTokSem(p *Program, lx *Lex) (*TokSem, []string) {
	s := &TokSem{p: p, lx: lx, fns: map[*ssa.Function]string{}}
	var missing []string
	prim := func(pkg, typ, name string) {
		if f := p.method(pkg, typ, name); f != nil {
			s.fns[f] = name
		} else {
			missing = append(missing, typ+"."+name)
		}
	}
	for _, n := range []string{"Scan", "UnScan", "LastScanRaw", "SetLastScanRaw"} {
		prim("lexer/scanner", "Scanner", n)
	}
	prim("lexer/scanner", "Position", "AdvancedBulk")
	prim("lexer", "Lexer", "FindMidComments")
	if t := p.typ("lexer/scanner", "Position"); t != nil {
		s.posType = t
	} else {
		missing = append(missing, "scanner.Position")
	}
	if t := p.typ("lexer/scanner", "Text"); t != nil {
		s.txtType = t
	} else {
		missing = append(missing, "scanner.Text")
	}
	if t := p.typ("lexer/scanner", "Scanner"); t != nil {
		s.scnType = t
	}
	if t := p.typ("lexer", "Lexer"); t != nil {
		s.lexType = t
	}
	return s, missing
}

// run interprets a function and returns the single state and result it ends with.
func (s *TokSem) run(e *Engine, st *State, fn *ssa.Function, args ...Val) (*State, []Val, error) {
	var got *State
	var res []Val
	n := 0
	s.done = func(x *State, r []Val) { got, res = x, r; n++ }
	st.frames = nil
	e.push(st, fn, args, nil, nil)
	e.explore(st)
	s.done = nil
	if n != 1 {
		return nil, nil, fmt.Errorf("%s has %d outcomes", fn, n)
	}
	return got, res, nil
}

// variadic passes options.
func variadic(e *Engine, st *State, vs ...Val) Val {
	if len(vs) == 0 {
		return VNil{}
	}
	return e.newSlice(st, vs)
}

// construct builds the parser the way Parse does.
func (s *TokSem) construct(e *Engine, perm, body bool) (st *State, parser Val, err error) {
	p := s.p
	st = e.newState()
	st.dom = &TokDom{rawOK: true}
	need := func(f *ssa.Function, name string) {
		if f == nil && err == nil {
			err = fmt.Errorf("%s cannot be found", name)
		}
	}
	wf, wd, nl := p.fn("lexer", "WithFilename"), p.fn("lexer", "WithDebug"), p.fn("lexer", "NewLexer")
	wp, wb, np := p.fn("parser", "WithPermissive"), p.fn("parser", "WithBodyIncludingComments"), p.fn("parser", "NewParser")
	need(wf, "lexer.WithFilename")
	need(nl, "lexer.NewLexer")
	need(wd, "lexer.WithDebug")
	need(wp, "parser.WithPermissive")
	need(wb, "parser.WithBodyIncludingComments")
	need(np, "parser.NewParser")
	if err != nil {
		return
	}
	var r []Val
	keep := func(v ...Val) []Val { return v }
	_ = keep
	if st, r, err = s.run(e, st, wf, filenameVal); err != nil {
		return
	}
	opt := r[0]
	reader := VIface{types.Typ[types.UnsafePointer], VOpaque{"reader"}}
	tokDom(st).noMid = []Val{opt}
	if st, r, err = s.run(e, st, wd, VBool(os.Getenv("VERIF_DBG") != "")); err != nil {
		return
	}
	dbg := r[0]
	opt = tokDom(st).noMid[0]
	if st, r, err = s.run(e, st, nl, reader, variadic(e, st, opt, dbg)); err != nil {
		return
	}
	tokDom(st).self = r[0]
	if st, r, err = s.run(e, st, wp, VBool(perm)); err != nil {
		return
	}
	o1 := r[0]
	tokDom(st).noMid = []Val{o1}
	if st, r, err = s.run(e, st, wb, VBool(body)); err != nil {
		return
	}
	o2 := r[0]
	o1 = tokDom(st).noMid[0]
	tokDom(st).noMid = nil
	lex := tokDom(st).self
	if st, r, err = s.run(e, st, np, lex, variadic(e, st, o1, o2)); err != nil {
		return
	}
	parser = r[0]
	d := tokDom(st)
	d.self = parser
	st.frames = nil
	st.trace = nil
	st.node, st.prog, st.steps = 0, 0, 0
	return
}

// analyse explores every element parser in every configuration.
func analyseTokens(p *Program, lx *Lex, only string) *TokResult {
	res := &TokResult{Findings: map[string][]*Finding{}, Funcs: map[*ssa.Function]bool{}}
	for _, perm := range []bool{true, false} {
		for _, body := range []bool{false, true} {
			cfg := fmt.Sprintf("permissive=%v bodyIncludingComments=%v", perm, body)
			if c := os.Getenv("VERIF_CFG"); c != "" && c != fmt.Sprintf("%v%v", perm, body) {
				continue
			}
			s, miss := newTokSem(p, lx)
			s.perm, s.body, s.cfgName = perm, body, cfg
			miss = append(miss, lx.missing...)
			e := newEngine(p)
			e.sem = s
			fmt.Sscan(os.Getenv("VERIF_DEADLINE"), &e.deadline)
			e.setupGlobals()
			if len(miss) > 0 {
				res.Missing = miss
				return res
			}
			res.Missing = append(res.Missing, s.findNTs()...)
			if s.ntByName["Proto"] == nil {
				return res
			}
			for _, nt := range s.ntFns() {
				x := s.nts[nt]
				n, err := s.buildNFA(x.name)
				if err != nil {
					res.Missing = append(res.Missing, err.Error())
					continue
				}
				x.nfa = n
				res.Edges += n.edges
			}
			base, parser, err := s.construct(e, perm, body)
			if err != nil {
				e.undecided(nil, 0, "%v", err)
				res.Findings[cfg] = append(res.Findings[cfg], e.findings()...)
				continue
			}
			_ = parser
			for _, fn := range s.ntFns() {
				nt := s.nts[fn]
				if nt.nfa == nil || (only != "" && only != nt.name) {
					continue
				}
				st := base.clone()
				s.root, s.rootNT, s.nfa = fn, nt, nt.nfa
				d := tokDom(st)
				d.cfgs = []Cfg{{node: nt.nfa.start}}
				if nt.name != "Proto" {
					s.unknownLexer(st)
					d.rawOK = false
				}
				args := []Val{d.self}
				for i := 1; i < len(fn.Params); i++ {
					args = append(args, unknownType(fn.Params[i].Type()))
				}
				e.root = fn.String() + " (" + cfg + ")"
				e.push(st, fn, args, nil, nil)
				n0, s0 := len(e.finds), e.States
				var prof *profiler
				if os.Getenv("VERIF_PROF") != "" {
					prof = &profiler{map[string]map[string]map[string]int{}, map[string]int{}}
					e.profile = func(st *State) { prof.add(e, st) }
				}
				e.explore(st)
				if prof != nil {
					prof.print()
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Printf("ROOT %-12s %s states=%d findings=%d\n", nt.name, cfg, e.States-s0, len(e.finds)-n0)
				}
				res.Roots++
			}
			res.Findings[cfg] = append(res.Findings[cfg], e.findings()...)
			res.States += e.States
			res.Returns += e.Returns
			res.Commits += s.Commits
			res.Folds += s.Folds
			for f := range e.Funcs {
				res.Funcs[f] = true
			}
		}
	}
	return res
}

// unknownLexer forgets what the lexer has read.
func (s *TokSem) unknownLexer(st *State) {
	lex, sc, ok := s.findLexer(st, tokDom(st).self)
	if !ok {
		return
	}
	t := s.lexType.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		var v Val
		switch t.Field(i).Name() {
		case "Token":
			v = VTop{}
		case "Text":
			v = unknownStr
		case "RawText":
			v = VRaw{}
		case "Pos":
			v = s.buildPos(s.posType, s.filename(st, sc), func(byte) Val { return VTop{} })
		default:
			continue
		}
		if n, ok := setPath(st.heap[lex.Obj], append(pathSplit(lex.Path), i), v); ok {
			st.heap[lex.Obj] = n
		}
	}
}

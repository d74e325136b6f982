package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// optSem interprets the assembly of the parser from the options.
type optSem struct {
	*TokSem
	proto *ssa.Function
	calls []optCall
	ends  []optEnd
	cuts  []ssa.CallInstruction
}

type optCall struct {
	st  *State
	arg Val
}

type optEnd struct{ res []Val }

// Call implements Sem.
func (s *optSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	switch fn.RelString(nil) {
	case "io.LimitReader":
		return one(st, VIface{types.Typ[types.UnsafePointer], limited}), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		if readerOf(args[0]) == limited {
			s.cut(site)
		}
		o := st.clone()
		d := *tokDom(o)
		d.noMid = append(append([]Val(nil), d.noMid...), readFailed)
		o.dom = &d
		return []Out{
			{st, VTuple{[]Val{VOpaque{"what was read"}, VNil{}}}},
			{o, VTuple{[]Val{VOpaque{"what was read"}, readFailure}}},
		}, true
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
		return one(st, VOpaque{"reader"}), true
	case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner":
		if readerOf(args[0]) == limited {
			s.cut(site)
		}
	}
	if fn == s.proto {
		for _, v := range tokDom(st).noMid {
			if v == Val(readFailed) {
				e.report(st, "C26", site.Pos(), "what was read before the reader failed is parsed as if it were everything")
			}
		}
		s.calls = append(s.calls, optCall{st.clone(), args[0]})
		o := st.clone()
		return []Out{
			{st, VTuple{[]Val{optProto, VNil{}}}},
			{o, VTuple{[]Val{VNil{}, optErr}}},
		}, true
	}
	return s.TokSem.Call(e, st, site, fn, args)
}

// cut says that a part of the input is never read.
func (s *optSem) cut(site ssa.CallInstruction) {
	s.cuts = append(s.cuts, site)
}

var (
	limited    = VOpaque{"a part of the input"}
	readFailed = VOpaque{"the reader has failed"}
	readFailure    = VIface{types.Typ[types.UnsafePointer], VOpaque{"the failure of the reader"}}
)

// readerOf tells what a reader reads from.
func readerOf(v Val) Val {
	if i, ok := v.(VIface); ok {
		if strings.HasSuffix(i.T.String(), "io.LimitedReader") {
			return limited
		}
		return i.V
	}
	return v
}

// BinOp implements Sem: a given file name is not any of the constants of the code.
func (s *optSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) {
	_, c1 := constStr(x)
	_, c2 := constStr(y)
	if (c1 && isFileSym(y) || c2 && isFileSym(x)) && (in.Op == token.EQL || in.Op == token.NEQ) {
		return one(st, VBool(in.Op == token.NEQ)), true
	}
	return s.TokSem.BinOp(e, st, in, x, y)
}

// Len implements Sem.
func (s *optSem) Len(e *Engine, st *State, x Val) (Val, bool) {
	if isFileSym(x) {
		return VAny{1}, true
	}
	return s.TokSem.Len(e, st, x)
}

func isFileSym(v Val) bool {
	t, ok := v.(VStr)
	if !ok || len(t.P) != 1 {
		return false
	}
	_, ok = t.P[0].(VSym)
	return ok
}

// Finish implements Sem.
func (s *optSem) Finish(e *Engine, st *State, results []Val) {
	if s.proto != nil {
		s.ends = append(s.ends, optEnd{results})
		return
	}
	s.TokSem.Finish(e, st, results)
}

var (
	optProto = VOpaque{"the parsed file"}
	optErr   = VIface{types.Typ[types.UnsafePointer], VOpaque{"the error of the parse"}}
)

// sameDeep compares values of two heaps.
func sameDeep(x *State, a Val, y *State, b Val, seen map[[2]int]bool, path string) string {
	list := func(f, g []Val) string {
		if len(f) != len(g) {
			return path
		}
		for i := range f {
			if w := sameDeep(x, f[i], y, g[i], seen, fmt.Sprintf("%s.%d", path, i)); w != "" {
				return w
			}
		}
		return ""
	}
	obj := func(i, j int) string {
		if seen[[2]int{i, j}] {
			return ""
		}
		seen[[2]int{i, j}] = true
		return sameDeep(x, x.heap[i], y, y.heap[j], seen, path)
	}
	if ofFuncs(x, a) || ofFuncs(y, b) {
		return "" // options that have been applied already
	}
	switch a := a.(type) {
	case VPtr:
		if b, ok := b.(VPtr); ok && a.Path == b.Path {
			return obj(a.Obj, b.Obj)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VSlice:
		if b, ok := b.(VSlice); ok && a.Path == b.Path && a.Lo == b.Lo && a.Hi == b.Hi {
			return obj(a.Obj, b.Obj)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VMap:
		if b, ok := b.(VMap); ok {
			return obj(a.Obj, b.Obj)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VIface:
		if b, ok := b.(VIface); ok && types.Identical(a.T, b.T) {
			return sameDeep(x, a.V, y, b.V, seen, path)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VStruct:
		if b, ok := b.(VStruct); ok {
			return list(a.F, b.F)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VArr:
		if b, ok := b.(VArr); ok {
			return list(a.E, b.E)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	case VFn:
		if b, ok := b.(VFn); ok && a.Fn == b.Fn {
			return list(a.B, b.B)
		}
		return path + ": " + encStr(a) + " and " + encStr(b)
	}
	if sameVal(a, b) {
		return ""
	}
	return path + ": " + encStr(a) + " and " + encStr(b)
}

// ofFuncs recognises a list of functions.
func ofFuncs(st *State, v Val) bool {
	s, ok := v.(VSlice)
	if !ok {
		return false
	}
	x, _ := getPath(st.heap[s.Obj], pathSplit(s.Path))
	arr, ok := x.(VArr)
	if !ok {
		return false
	}
	for _, f := range arr.E {
		if _, ok := f.(VFn); !ok {
			return false
		}
	}
	return len(arr.E) > 0
}

// checkOptions compares the parser that Parse builds with the one that the
// constructors build from what the options say.
func checkOptions(p *Program) (fs, und []*Finding, coverage map[string]interface{}) {
	coverage = map[string]interface{}{}
	miss := func(format string, args ...interface{}) {
		und = append(und, &Finding{Cat: "undecided", Msg: fmt.Sprintf(format, args...), Where: "-", Func: "-"})
	}
	names := []string{"WithDebug", "WithPermissive", "WithBodyIncludingComments", "WithFilename"}
	parse := p.fn("", "Parse")
	proto := p.method("parser", "Parser", "ParseProto")
	opts := map[string]*ssa.Function{}
	for _, n := range names {
		opts[n] = p.fn("", n)
		if opts[n] == nil {
			miss("the option %s cannot be found", n)
		}
	}
	if parse == nil || proto == nil {
		miss("Parse or ParseProto cannot be found")
	}
	if len(und) > 0 {
		return
	}
	lx := newLex(p)
	type given struct {
		name string
		val  Val
	}
	var cases [][]given
	// every value: both of a switch, no file name and some file name
	var add func(done []given, rest []string)
	add = func(done []given, rest []string) {
		if len(rest) == 0 {
			cases = append(cases, append([]given(nil), done...))
			return
		}
		vs := []Val{VBool(true), VBool(false)}
		if rest[0] == "WithFilename" {
			vs = []Val{strOf(VSym{fmt.Sprintf("the file name %d", len(done)), types.Typ[types.String]}), strOf(VConstStr(""))}
		}
		for _, v := range vs {
			add(append(append([]given(nil), done...), given{rest[0], v}), rest[1:])
		}
	}
	add(nil, nil)
	for _, n := range names {
		add(nil, []string{n})
		add(nil, []string{n, n})
	}
	var perm func(done, rest []string)
	perm = func(done, rest []string) {
		if len(rest) == 0 {
			add(nil, done)
		}
		for i, n := range rest {
			r := append(append([]string(nil), rest[:i]...), rest[i+1:]...)
			perm(append(append([]string(nil), done...), n), r)
		}
	}
	perm(nil, names)
	reader := VIface{types.Typ[types.UnsafePointer], VOpaque{"reader"}}
	for _, gs := range cases {
		// what the options say
		eff := map[string]Val{"WithDebug": VBool(false), "WithPermissive": VBool(true), "WithBodyIncludingComments": VBool(false), "WithFilename": strOf(VConstStr(""))}
		label := "no option"
		for i, g := range gs {
			eff[g.name] = g.val
			if i == 0 {
				label = g.name
			} else {
				label += ", " + g.name
			}
			if b, ok := g.val.(VBool); ok {
				label += fmt.Sprintf("(%v)", bool(b))
			}
		}
		newSem := func() (*optSem, *Engine, *State) {
			ts, _ := newTokSem(p, lx)
			s := &optSem{TokSem: ts}
			e := newEngine(p)
			e.sem = s
			e.root = "Parse with " + label
			e.setupGlobals()
			st := e.newState()
			st.dom = &TokDom{rawOK: true}
			return s, e, st
		}
		step := func(s *optSem, e *Engine, st *State, fn *ssa.Function, args func() []Val) (*State, bool) {
			n, r, err := s.run(e, st, fn, args()...)
			if err != nil || len(r) != 1 {
				miss("%s: %v", label, err)
				return nil, false
			}
			tokDom(n).noMid = append(append([]Val(nil), tokDom(n).noMid...), r[0])
			return n, true
		}
		// the oracle
		s, e, st := newSem()
		mk := func(pkg, name string, args ...Val) bool {
			fn := p.fn(pkg, name)
			if fn == nil {
				miss("%s.%s cannot be found", pkg, name)
				return false
			}
			var ok bool
			st, ok = step(s, e, st, fn, func() []Val { return args })
			return ok
		}
		build := func(rev bool) (Val, bool) {
			lx := []string{"WithDebug", "WithFilename"}
			ps := []string{"WithPermissive", "WithBodyIncludingComments"}
			if rev {
				lx[0], lx[1] = lx[1], lx[0]
				ps[0], ps[1] = ps[1], ps[0]
			}
			kept := func() []Val { return append([]Val(nil), tokDom(st).noMid...) }
			if !mk("lexer", lx[0], eff[lx[0]]) || !mk("lexer", lx[1], eff[lx[1]]) {
				return nil, false
			}
			k := kept()
			if !mk("lexer", "NewLexer", reader, variadic(e, st, k[0], k[1])) || !mk("parser", ps[0], eff[ps[0]]) || !mk("parser", ps[1], eff[ps[1]]) {
				return nil, false
			}
			k = kept()
			if !mk("parser", "NewParser", k[2], variadic(e, st, k[3], k[4])) {
				return nil, false
			}
			return kept()[5], true
		}
		other, ok := build(true)
		otherSt := st
		if !ok {
			return
		}
		s, e, st = newSem()
		want, ok := build(false)
		wantSt := st
		if !ok {
			return
		}
		if w := sameDeep(wantSt, want, otherSt, other, map[[2]int]bool{}, ""); w != "" {
			fs = append(fs, p.finding("C29", parse.Pos(), parse, "%s: the order of the options of the components matters (%s)", label, optPath(want, w)))
		}
		// the code
		s, e, st = newSem()
		for _, g := range gs {
			if !mk("", g.name, g.val) {
				return
			}
		}
		k := append([]Val(nil), tokDom(st).noMid...)
		s.proto = proto
		st.frames = nil
		e.push(st, parse, []Val{reader, variadic(e, st, k...)}, nil, nil)
		e.explore(st)
		for _, key := range sortedKeys(e.finds) {
			f := e.finds[key]
			if f.Cat == "undecided" {
				und = append(und, f)
			} else if f.Cat == "panic" || f.Cat == "C26" {
				fs = append(fs, f)
			}
		}
		for _, c := range s.cuts {
			fs = append(fs, p.finding("C26", c.Pos(), c.Parent(), "only a part of the input is read, as if it ended there"))
		}
		fail := func(format string, args ...interface{}) {
			fs = append(fs, p.finding("C29", parse.Pos(), parse, "%s: %s", label, fmt.Sprintf(format, args...)))
		}
		if len(s.calls) == 0 {
			if len(e.finds) == 0 {
				fail("nothing is parsed")
			}
			continue
		}
		for _, c := range s.calls {
			if w := sameDeep(wantSt, want, c.st, c.arg, map[[2]int]bool{}, ""); w != "" {
				fail("the parser differs from the one that the options ask for (%s)", optPath(c.arg, w))
			}
		}
		for _, end := range s.ends {
			good := len(end.res) == 2 && (sameVal(end.res[0], optProto) && sameVal(end.res[1], VNil{}) || sameVal(end.res[0], VNil{}) && (sameVal(end.res[1], optErr) || sameVal(end.res[1], readFailure)))
			if !good {
				fail("Parse does not return what the parser delivers")
			}
		}
	}
	coverage["option_lists"] = len(cases)
	return
}

func optPath(v Val, path string) string {
	return "component" + strings.ReplaceAll(path, ".", " ")
}

func checkC29(p *Program, tier string) (*Report, error) {
	os.Setenv("VERIF_DBG", "1")
	dbg, err := tokens(p, tier)
	os.Unsetenv("VERIF_DBG")
	if err != nil {
		return nil, err
	}
	r := &Report{Rule: "Parse is interpreted for every order of the options, with symbolic values, and must hand the reader to the parser that the constructors build from exactly these values; the file name is followed into every position; the element parsers, interpreted with the debug option, must satisfy the same specifications as without it."}
	some := false
	for _, o := range dbg {
		for _, f := range o.Findings {
			some = some || f.Cat != "undecided" && f.Cat != "C29"
		}
	}
	plain := map[string]bool{}
	if some {
		outs, err := tokens(p, tier)
		if err != nil {
			return nil, err
		}
		for _, o := range outs {
			for _, f := range o.Findings {
				plain[o.NT+o.Cfg+f.Cat+f.Msg] = true
			}
		}
	}
	t := tokReportOf(dbg, "", func(o *tokOut, f *tokFinding) bool {
		if f.Cat == "C29" {
			return true
		}
		if plain[o.NT+o.Cfg+f.Cat+f.Msg] {
			return false
		}
		f.Msg = "with the debug option: " + f.Msg
		return true
	})
	r.merge(t, "parser")
	r.merge(runeReport(scannerOuts(p), "", cats("C29")), "scanner")
	fs, und, c := checkOptions(p)
	for _, f := range fs {
		if f.Cat != "C26" {
			r.Findings = append(r.Findings, f)
		}
	}
	r.Undecided = append(r.Undecided, und...)
	for k, v := range c {
		r.cover(k, v)
	}
	return r, nil
}

func init() { checks["C29"] = Check{"other", checkC29} }

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entered are the functions that an engine of this process has interpreted.
var entered = map[string]bool{}

// merge adds what another analysis of the same check says.
func (r *Report) merge(o *Report, prefix string) {
	r.Findings = append(r.Findings, o.Findings...)
	r.Undecided = append(r.Undecided, o.Undecided...)
	for _, a := range o.Assume {
		r.Assume = append(r.Assume, a)
	}
	for k, v := range o.Coverage {
		r.cover(prefix+"_"+k, v)
	}
}

// everything runs the analyses of the scanner and of the element parsers.
func everything(p *Program, tier, rule string, cs ...string) (*Report, map[string]bool, error) {
	tok, err := tokens(p, tier)
	if err != nil {
		return nil, nil, err
	}
	sc := scannerOuts(p)
	r := &Report{Rule: rule}
	r.merge(tokReportOf(tok, "", cats(cs...)), "parser")
	r.merge(runeReport(sc, "", cats(cs...)), "scanner")
	fns := map[string]bool{}
	for _, os := range [][]*tokOut{tok, sc} {
		for _, o := range os {
			for _, f := range o.Funcs {
				fns[f] = true
			}
		}
	}
	return r, fns, nil
}

// alsoTree adds the analyses of visiting, interpreting and the accessors.
func (r *Report) alsoTree(p *Program, fns map[string]bool, cat string) error {
	entered = map[string]bool{}
	v, fs, err := exploreVisitor(p)
	if err != nil {
		return err
	}
	u, us, err := exploreUnordered(p)
	if err != nil {
		return err
	}
	for _, f := range append(fs, us...) {
		if f.Cat == cat || f.Cat == "undecided" {
			r.add(f)
		}
	}
	for _, c := range []func(*Program, string) (*Report, error){checkC31, checkC32} {
		o, err := c(p, "quick")
		if err != nil {
			return err
		}
		for _, f := range append(o.Findings, o.Undecided...) {
			if f.Cat == cat || f.Cat == "undecided" {
				r.add(f)
			}
		}
	}
	ms, mu, _ := checkMid(p)
	for _, f := range append(ms, mu...) {
		if f.Cat == cat || f.Cat == "undecided" {
			r.add(f)
		}
	}
	for k, x := range v.Coverage {
		r.cover("visitor_"+k, x)
	}
	for k, x := range u.Coverage {
		r.cover("unordered_"+k, x)
	}
	for f := range entered {
		fns[f] = true
	}
	return nil
}

// residual lists the library functions that no engine has interpreted.
func residual(p *Program, fns map[string]bool) []*ssa.Function {
	var rs []*ssa.Function
	for fn := range newCallGraph(p).reach(p.api()...) {
		if p.library(fn) && fn.Blocks != nil && !fns[fn.String()] && fn.Synthetic == "" {
			rs = append(rs, fn)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].String() < rs[j].String() })
	return rs
}

// canPanic tells why an instruction may panic; nil dereferences of receivers and
// parameters are the caller's.
func canPanic(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Panic:
		return "panics"
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return "asserts a type"
		}
	case *ssa.MapUpdate:
		if _, ok := in.Map.(*ssa.MakeMap); !ok {
			return "writes to a map that may be nil"
		}
	case *ssa.Slice:
		for _, x := range []ssa.Value{in.Low, in.High, in.Max} {
			if x == nil {
				continue
			}
			if _, fixed := in.X.Type().Underlying().(*types.Pointer); !fixed {
				return "slices a list or text"
			}
		}
	case *ssa.Index:
		return "indexes"
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "indexes a text"
		}
	case *ssa.IndexAddr:
		if _, arr := in.X.Type().Underlying().(*types.Pointer); arr {
			if _, c := in.Index.(*ssa.Const); c {
				return ""
			}
		}
		if rangeIndex(in.Index, in.X) {
			return ""
		}
		return "indexes a list"
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if c, ok := in.Y.(*ssa.Const); !ok || c.Int64() == 0 {
					return "divides"
				}
			}
		}
	case *ssa.Send:
		return "sends"
	case ssa.CallInstruction:
		c := in.Common()
		if f := c.StaticCallee(); f != nil {
			switch f.String() {
			case "strings.Repeat", "bytes.Repeat", "regexp.MustCompile", "(reflect.Value).Interface":
				return "calls " + f.String()
			}
		}
	}
	return ""
}

// rangeIndex recognises the index of a range loop over a list.
func rangeIndex(i, x ssa.Value) bool {
	b, ok := i.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	phi, ok := b.X.(*ssa.Phi)
	if !ok || phi.Comment != "rangeindex" {
		return false
	}
	for _, ref := range *b.Referrers() {
		c, ok := ref.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		call, ok := c.Y.(*ssa.Call)
		if ok && len(call.Call.Args) == 1 && call.Call.Args[0] == x {
			return true
		}
	}
	return false
}

// endlessLoops lists the loops of a function that are not iterations over a list, map or text.
func endlessLoops(fn *ssa.Function) []token.Pos {
	n := len(fn.Blocks)
	var r []token.Pos
	for _, comp := range components(n, func(i int) []int {
		var s []int
		for _, b := range fn.Blocks[i].Succs {
			s = append(s, b.Index)
		}
		return s
	}) {
		loop := len(comp) > 1
		for _, b := range fn.Blocks[comp[0]].Succs {
			loop = loop || b.Index == comp[0]
		}
		if !loop {
			continue
		}
		in := map[int]bool{}
		for _, b := range comp {
			in[b] = true
		}
		// without the heads of iterations the rest must be free of cycles
		head := func(b *ssa.BasicBlock) bool {
			if strings.HasPrefix(b.Comment, "rangeindex.loop") || strings.HasPrefix(b.Comment, "rangeiter.loop") {
				return true
			}
			return false
		}
		for _, c := range components(n, func(i int) []int {
			var s []int
			if !in[i] || head(fn.Blocks[i]) {
				return nil
			}
			for _, b := range fn.Blocks[i].Succs {
				if in[b.Index] && !head(b) {
					s = append(s, b.Index)
				}
			}
			return s
		}) {
			bad := len(c) > 1
			for _, b := range fn.Blocks[c[0]].Succs {
				bad = bad || b.Index == c[0] && in[c[0]] && !head(b)
			}
			if !bad {
				continue
			}
			pos := fn.Pos()
			for _, i := range fn.Blocks[c[0]].Instrs {
				if i.Pos().IsValid() {
					pos = i.Pos()
					break
				}
			}
			r = append(r, pos)
		}
	}
	return r
}

func checkC12(p *Program, tier string) (*Report, error) {
	r, fns, err := everything(p, tier, "In the abstract state graphs of the scanner, the element parsers, the Accept methods and the Interpret functions, every cycle contains a step that consumes source text or moves on to the next list element; every other function reachable from the API has only loops over lists, maps or texts; recursion follows the nesting of what is parsed or the tree.", "loop", "depth")
	if err != nil {
		return nil, err
	}
	if err := r.alsoTree(p, fns, "loop"); err != nil {
		return nil, err
	}
	var names []string
	for _, fn := range residual(p, fns) {
		names = append(names, short(fn))
		for _, pos := range endlessLoops(fn) {
			r.Undecided = append(r.Undecided, p.finding("undecided", pos, fn, "a loop in a function that the engines do not reach (%s) may be endless", short(fn)))
		}
	}
	r.cover("functions_checked_for_loops_by_shape", names)
	r.Assume = append(r.Assume, "a reader that delivers no text and no error forever is not a finite source; bufio gives up on it")
	return r, nil
}

func checkC13(p *Program, tier string) (*Report, error) {
	r, fns, err := everything(p, tier, "No instruction that can panic (nil dereference, index, slice, type assertion, map write, call of panic) is reached in a panicking way on any abstract path of the scanner, the element parsers, the Accept methods, the Interpret functions and the text accessors; every other function reachable from the API has no such instruction.", "panic")
	if err != nil {
		return nil, err
	}
	if err := r.alsoTree(p, fns, "panic"); err != nil {
		return nil, err
	}
	var names []string
	obl := 0
	for _, fn := range residual(p, fns) {
		names = append(names, short(fn))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w := canPanic(in); w != "" {
					r.Undecided = append(r.Undecided, p.finding("undecided", in.Pos(), fn, "%s %s where no engine has been", short(fn), w))
				}
			}
		}
	}
	for _, fn := range p.fns {
		if fns[fn.String()] {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.FieldAddr); ok || canPanic(in) != "" {
						obl++
					}
				}
			}
		}
	}
	r.cover("functions_checked_by_shape", names)
	r.cover("instructions_that_can_panic_in_interpreted_functions", obl)
	r.Assume = append(r.Assume, "the receiver, visitor, reader and options given by the caller are not nil, and the tree is one that the parser can build")
	return r, nil
}

func checkC26(p *Program, tier string) (*Report, error) {
	r, _, err := everything(p, tier, "After the reader has failed with anything but io.EOF no scan succeeds silently, the failure is remembered, and no element parser accepts: the failure reaches the result of the parse on every path. The scanner reads the reader that is given to Parse, to its end.", "C26")
	if err != nil {
		return nil, err
	}
	fs, und, c := checkOptions(p)
	seen := map[string]bool{}
	for _, f := range fs {
		if k := fmt.Sprint(f.Pos) + f.Msg; f.Cat == "C26" && !seen[k] {
			seen[k] = true
			r.Findings = append(r.Findings, f)
		}
	}
	r.Undecided = append(r.Undecided, und...)
	for k, v := range c {
		r.cover(k, v)
	}
	return r, nil
}

func init() {
	checks["C12"] = Check{"other", checkC12}
	checks["C13"] = Check{"other", checkC13}
	checks["C26"] = Check{"other", checkC26}
}

// components groups the nodes of a graph.
func components(n int, succ func(int) []int) [][]int {
	m := map[int][]int{}
	for i, c := range sccs(n, succ) {
		m[c] = append(m[c], i)
	}
	var r [][]int
	for c := 0; len(r) < len(m); c++ {
		if x, ok := m[c]; ok {
			r = append(r, x)
		}
	}
	return r
}

package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var openers = []string{"TLEFTCURLY", "TLEFTSQUARE", "TLEFTPAREN", "TLESS"}

var closers = []string{"TRIGHTCURLY", "TRIGHTSQUARE", "TRIGHTPAREN", "TGREATER"}

// checkC14 looks for recursion that does not follow the nesting of the source or of the AST.
func checkC14(p *Program, tier string) (*Report, error) {
	r := &Report{Rule: "recursion analysis: every cycle of the call graph contains a call that is made only after an opening bracket has been tested on every path from the entry of the calling function, or that descends into memory loaded from the AST it was given"}
	g := newCallGraph(p)
	open, closing := map[int64]bool{}, map[int64]bool{}
	var tokType types.Type
	if sp := p.spkgs["lexer/scanner"]; sp != nil {
		for _, n := range openers {
			if c, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok {
				if v, ok := constant.Int64Val(c.Val()); ok {
					open[v] = true
					tokType = c.Type()
				}
			}
		}
		for _, n := range closers {
			if c, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok {
				if v, ok := constant.Int64Val(c.Val()); ok {
					closing[v] = true
				}
			}
		}
	}
	var fns []*ssa.Function
	idx := map[*ssa.Function]int{}
	for _, fn := range p.fns {
		if p.library(fn) {
			idx[fn] = len(fns)
			fns = append(fns, fn)
		}
	}
	type edge struct {
		to int
		in ssa.Instruction
	}
	adj := make([][]edge, len(fns))
	for i, fn := range fns {
		for _, s := range g.sites[fn] {
			if j, ok := idx[s.to]; ok {
				adj[i] = append(adj[i], edge{j, s.in})
			}
		}
		for _, a := range fn.AnonFuncs {
			if j, ok := idx[a]; ok {
				adj[i] = append(adj[i], edge{j, nil})
			}
		}
	}
	comp := sccs(len(fns), func(i int) []int {
		var r []int
		for _, e := range adj[i] {
			r = append(r, e.to)
		}
		return r
	})
	size := map[int]int{}
	for _, c := range comp {
		size[c]++
	}
	inSCC := func(i, j int) bool { return comp[i] == comp[j] }
	isTok := func(v ssa.Value, set map[int64]bool) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || tokType == nil || !types.Identical(c.Type(), tokType) {
			return false
		}
		n, ok := constant.Int64Val(c.Value)
		return ok && set[n]
	}
	isOpen := func(v ssa.Value) bool { return isTok(v, open) }
	isClose := func(v ssa.Value) bool { return isTok(v, closing) }
	// a helper that is given an opening bracket to test, or tests one itself
	tests := make([]bool, len(fns))
	for changed := true; changed; {
		changed = false
		for i, fn := range fns {
			if tests[i] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if testsOpener(in, isOpen) {
						tests[i] = true
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil {
							if j, ok := idx[f]; ok && tests[j] && !inSCC(i, j) {
								tests[i] = true
							}
						}
					}
				}
			}
			changed = changed || tests[i]
		}
	}
	// must-analysis: has an opener been tested on every path?
	guarded := func(i int) map[ssa.Instruction]bool {
		fn := fns[i]
		n := len(fn.Blocks)
		in := make([]bool, n)
		for k := range in {
			in[k] = k != 0
		}
		gen := func(x ssa.Instruction) bool {
			if c, ok := x.(ssa.CallInstruction); ok {
				if testsOpener(x, isOpen) {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil {
					if j, ok := idx[f]; ok && tests[j] && !inSCC(i, j) {
						return true
					}
				}
			}
			return false
		}
		// along gives the fact on the k-th edge out of a block that ends with the fact v
		along := func(b *ssa.BasicBlock, k int, v bool) bool {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return v
			}
			c, ok := br.Cond.(*ssa.BinOp)
			if !ok || (c.Op != token.EQL && c.Op != token.NEQ) {
				return v
			}
			if (c.Op == token.EQL) != (k == 0) {
				return v
			}
			switch {
			case isOpen(c.X) || isOpen(c.Y):
				return true
			case isClose(c.X) || isClose(c.Y):
				return false
			}
			return v
		}
		for changed := true; changed; {
			changed = false
			for _, b := range fn.Blocks {
				v := b.Index != 0 && len(b.Preds) > 0
				for _, q := range b.Preds {
					o := in[q.Index]
					for _, x := range q.Instrs {
						o = o || gen(x)
					}
					for k, sc := range q.Succs {
						if sc == b && !along(q, k, o) {
							v = false
						}
					}
				}
				if v != in[b.Index] {
					in[b.Index] = v
					changed = true
				}
			}
		}
		r := map[ssa.Instruction]bool{}
		for _, b := range fn.Blocks {
			v := in[b.Index]
			for _, x := range b.Instrs {
				r[x] = v
				v = v || gen(x)
			}
		}
		return r
	}
	ast := map[string]bool{"parser": true, "parser/meta": true, "interpret/unordered": true}
	descends := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		args := append([]ssa.Value(nil), c.Common().Args...)
		if c.Common().IsInvoke() {
			args = append(args, c.Common().Value)
		}
		for _, a := range args {
			if !p.holdsAST(a.Type(), ast, 0) {
				continue
			}
			for _, o := range origins(a) {
				if (o.param != nil || o.free != nil) && o.loaded {
					return true
				}
			}
			// ranging over a slice that is a parameter
			if fromElement(a) {
				return true
			}
		}
		return false
	}
	rest := make([][]edge, len(fns))
	sites, cyc := 0, 0
	for i := range fns {
		var gd map[ssa.Instruction]bool
		for _, e := range adj[i] {
			if !inSCC(i, e.to) || (size[comp[i]] == 1 && e.to != i) {
				continue
			}
			cyc++
			if e.in != nil {
				sites++
				if gd == nil {
					gd = guarded(i)
				}
				if gd[e.in] || descends(e.in) {
					continue
				}
			}
			rest[i] = append(rest[i], e)
		}
	}
	rcomp := sccs(len(fns), func(i int) []int {
		var r []int
		for _, e := range rest[i] {
			r = append(r, e.to)
		}
		return r
	})
	rsize := map[int]int{}
	for _, c := range rcomp {
		rsize[c]++
	}
	for i, fn := range fns {
		for _, e := range rest[i] {
			if rcomp[i] != rcomp[e.to] || (rsize[rcomp[i]] == 1 && e.to != i) {
				continue
			}
			pos := token.NoPos
			if e.in != nil {
				pos = e.in.Pos()
			}
			r.add(p.finding("recursion", pos, fn, "%s calls %s recursively although the source need not be nested here", short(fn), short(fns[e.to])))
		}
	}
	var cycles []string
	groups := map[int][]string{}
	for i, fn := range fns {
		if size[comp[i]] > 1 || selfLoop(len(adj[i]), func(k int) bool { return adj[i][k].to == i }) {
			groups[comp[i]] = append(groups[comp[i]], short(fn))
		}
	}
	for _, gr := range groups {
		sort.Strings(gr)
		cycles = append(cycles, strings.Join(gr, " "))
	}
	sort.Strings(cycles)
	r.cover("functions_analysed", len(fns))
	r.cover("call_edges_in_cycles", cyc)
	r.cover("recursive_groups", cycles)
	r.Assume = []string{"standard library calls need bounded stack", "a test of an opening bracket guards the recursion behind it (that the bracket is then required is part of C01)"}
	return r, nil
}

func short(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.RelString(nil), modPath+"/", ""), modPath, "")
}

func selfLoop(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func testsOpener(in ssa.Instruction, isOpen func(ssa.Value) bool) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		if in.Op == token.EQL || in.Op == token.NEQ {
			return isOpen(in.X) || isOpen(in.Y)
		}
	case ssa.CallInstruction:
		for _, a := range in.Common().Args {
			if isOpen(a) {
				return true
			}
		}
	}
	return false
}

// listBelow tells whether a list that a function makes holds only parts of what it was given.
func listBelow(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	below := func(x ssa.Value) bool {
		for _, o := range origins(x) {
			if (o.param != nil || o.free != nil) && o.loaded {
				return true
			}
		}
		return fromElement(x)
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !listBelow(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return listBelow(v.X, seen)
	case *ssa.MakeSlice:
		for _, u := range *v.Referrers() {
			if ia, ok := u.(*ssa.IndexAddr); ok && !storesBelow(ia, below) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr:
				if !storesBelow(u, below) {
					return false
				}
			case *ssa.Store:
				if u.Addr == v && !listBelow(u.Val, seen) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				return listBelow(a, seen)
			}
			for _, o := range origins(v) {
				if (o.param != nil || o.free != nil) && o.loaded {
					return true
				}
			}
		}
	case *ssa.Extract:
		return false
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range v.Call.Args {
				if !listBelow(a, seen) {
					return false
				}
			}
			return true
		}
		fn := v.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil {
			return false
		}
		n := 0
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !listBelow(r.Results[0], seen) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

func storesBelow(ia *ssa.IndexAddr, below func(ssa.Value) bool) bool {
	for _, u := range *ia.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ia && !below(st.Val) {
			return false
		}
	}
	return true
}

// fromElement tells whether a value is an element of a list.
func fromElement(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if ia, ok := v.X.(*ssa.IndexAddr); ok {
					for _, o := range origins(ia.X) {
						if o.param != nil || o.free != nil {
							return true
						}
					}
					if listBelow(ia.X, map[ssa.Value]bool{}) {
						return true
					}
				}
			}
		case *ssa.TypeAssert:
			return walk(v.X)
		case *ssa.Extract:
			return walk(v.Tuple)
		case *ssa.ChangeInterface:
			return walk(v.X)
		case *ssa.MakeInterface:
			return walk(v.X)
		case *ssa.Next:
			return true
		}
		return false
	}
	return walk(v)
}

// sccs numbers the strongly connected components.
func sccs(n int, succ func(int) []int) []int {
	comp := make([]int, n)
	index := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var stack []int
	next, nc := 1, 0
	var visit func(v int)
	visit = func(v int) {
		index[v], low[v] = next, next
		next++
		stack = append(stack, v)
		on[v] = true
		for _, w := range succ(v) {
			if index[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && index[w] < low[v] {
				low[v] = index[w]
			}
		}
		if low[v] == index[v] {
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp[w] = nc
				if w == v {
					break
				}
			}
			nc++
		}
	}
	for v := 0; v < n; v++ {
		if index[v] == 0 {
			visit(v)
		}
	}
	return comp
}

func init() { checks["C14"] = Check{"other", checkC14} }

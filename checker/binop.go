package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

func (e *Engine) binop(st *State, in *ssa.BinOp) []Out {
	x, y := e.val(st, in.X), e.val(st, in.Y)
	if outs, ok := e.sem.BinOp(e, st, in, x, y); ok {
		return outs
	}
	return e.binopVals(st, in, x, y)
}

func (e *Engine) binopVals(st *State, in *ssa.BinOp, x, y Val) []Out {
	op := in.Op
	a, okA := x.(VInt)
	b, okB := y.(VInt)
	if okA && okB {
		if isCmp(op) {
			return one(st, VBool(cmpInt(op, int64(a), int64(b))))
		}
		basic := in.Type().Underlying().(*types.Basic)
		var r VInt
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO, token.REM:
			if b == 0 {
				e.report(st, "panic", in.Pos(), "division by zero")
				return nil
			}
			if op == token.QUO {
				r = a / b
			} else {
				r = a % b
			}
		case token.AND:
			r = a & b
		case token.OR:
			r = a | b
		case token.XOR:
			r = a ^ b
		case token.AND_NOT:
			r = a &^ b
		case token.SHL:
			if b > 62 {
				return one(st, VTop{})
			}
			r = a << uint(b)
		case token.SHR:
			r = a >> uint(b)
		}
		return one(st, truncInt(int64(r), basic))
	}
	if isCmp(op) {
		return e.compare(st, in, op, x, y)
	}
	if op == token.ADD {
		if s, ok := x.(VStr); ok {
			if t, ok := y.(VStr); ok {
				return one(st, strOf(s, t))
			}
		}
		if c, ok := x.(VCur); ok && okB && b == 1 && !c.Next && !c.Rev {
			c.Next = true
			return one(st, c)
		}
		if c, ok := y.(VCur); ok && okA && a == 1 && !c.Next && !c.Rev {
			c.Next = true
			return one(st, c)
		}
	}
	if c, ok := x.(VCur); ok && okB && c.Rev && !c.Next && (op == token.SUB && b == 1 || op == token.ADD && b == -1) {
		if c.Past {
			c.Past = false
		} else {
			c.Next = true
		}
		return one(st, c)
	}
	if a, ok := x.(VAny); ok && okB {
		switch op {
		case token.ADD:
			return one(st, VAny{a.Min + int(b)})
		case token.SUB:
			return one(st, VAny{a.Min - int(b)})
		}
	}
	if l, ok := x.(VLen); ok && okB && op == token.SUB {
		l.Off += int(b)
		return one(st, l)
	}
	if l, ok := x.(VLen); ok && okB && op == token.ADD {
		l.Off -= int(b)
		return one(st, l)
	}
	if l, ok := y.(VLen); ok && okA && op == token.ADD {
		l.Off -= int(a)
		return one(st, l)
	}
	if op == token.AND || op == token.OR {
		// logical use of booleans
		if p, ok := x.(VBool); ok {
			if q, ok := y.(VBool); ok {
				if op == token.AND {
					return one(st, p && q)
				}
				return one(st, p || q)
			}
		}
	}
	if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return one(st, strOf(VTop{}))
	}
	return one(st, VTop{})
}

// cursor decides comparisons of an iteration index with the length of the list.
// It returns the outcomes for "index < length".
func (e *Engine) cursor(st *State, idx ssa.Value, x Val, l VLen) ([]Out, bool) {
	v, ok := getPath(st.heap[l.Obj], pathSplit(l.Path))
	if !ok {
		return nil, false
	}
	arr, ok := v.(VArr)
	if !ok {
		return nil, false
	}
	var outs []Out
	on := func(s *State, k int, first bool) {
		e.refineCursor(s, idx, VCur{Obj: l.Obj, Path: l.Path, K: k, First: first})
		if sp, isSpread := arr.E[k].(Spread); isSpread {
			s.prog++
			if h, ok := e.sem.(interface {
				ListElem(e *Engine, st *State, sp Spread, first bool) bool
			}); ok && !h.ListElem(e, s, sp, first) {
				return
			}
			if h, ok := e.sem.(interface {
				ListElemAt(e *Engine, st *State, obj int, path string, k int) bool
			}); ok && !h.ListElemAt(e, s, l.Obj, l.Path, k) {
				return
			}
		}
		outs = append(outs, Out{s, VBool(true)})
	}
	// from continues with the first element at or behind item k. src is the
	// spread that has been left, nil if there is none.
	var from func(s *State, k int)
	from = func(s *State, k int) {
		if k >= len(arr.E) {
			outs = append(outs, Out{s, VBool(false)})
			return
		}
		if sp, isSpread := arr.E[k].(Spread); isSpread {
			t := s.clone()
			if e.sem.ListEnd(e, t, sp, true) {
				from(t, k+1)
			}
		}
		on(s, k, true)
	}
	switch i := x.(type) {
	case VInt:
		its := arr.E[l.Lo:]
		k := hasSpread(its)
		if int(i) < k {
			return one(st, VBool(true)), true
		}
		if int(i) == k {
			from(st, l.Lo+k)
			return outs, true
		}
	case VCur:
		if i.Obj != l.Obj || i.Path != l.Path || i.Rev {
			return nil, false
		}
		if !i.Next {
			return one(st, VBool(true)), true
		}
		if sp, isSpread := arr.E[i.K].(Spread); isSpread {
			t := st.clone()
			on(t, i.K, false)
			if !e.sem.ListEnd(e, st, sp, false) {
				return outs, true
			}
		}
		from(st, i.K+1)
		return outs, true
	}
	return nil, false
}

// backCursor decides the comparison of an index that runs down a list with the
// beginning of the list: whether an element is left. Past tells that the index
// is one more than that of the next element.
func (e *Engine) backCursor(st *State, idx ssa.Value, x Val, past bool) ([]Out, bool) {
	h, ok := e.sem.(interface {
		ListElemBack(e *Engine, st *State, obj int, path string, k int) (int, bool)
	})
	if !ok {
		return nil, false
	}
	var outs []Out
	var from func(s *State, obj int, path string, lo, k int)
	from = func(s *State, obj int, path string, lo, k int) {
		if k < lo {
			outs = append(outs, Out{s, VBool(false)})
			return
		}
		v, _ := getPath(s.heap[obj], pathSplit(path))
		arr := v.(VArr)
		if sp, isSpread := arr.E[k].(Spread); isSpread {
			t := s.clone()
			if e.sem.ListEnd(e, t, sp, true) {
				from(t, obj, path, lo, k-1)
			}
			s.prog++
			if k, ok = h.ListElemBack(e, s, obj, path, k); !ok {
				outs = nil
				return
			}
		}
		e.refine(s, idx, VCur{Obj: obj, Path: path, K: k, Rev: true, Past: past})
		outs = append(outs, Out{s, VBool(true)})
	}
	switch i := x.(type) {
	case VLen:
		if past && i.Off != 0 || !past && i.Off != 1 || i.Lo != 0 {
			return nil, false
		}
		v, ok := getPath(st.heap[i.Obj], pathSplit(i.Path))
		if !ok {
			return nil, false
		}
		arr, ok := v.(VArr)
		if !ok {
			return nil, false
		}
		from(st, i.Obj, i.Path, 0, len(arr.E)-1)
	case VCur:
		switch {
		case !i.Rev:
			return nil, false
		case past && i.Past, !past && !i.Past && !i.Next:
			return one(st, VBool(true)), true
		case past && !i.Next, !past && i.Next:
			from(st, i.Obj, i.Path, 0, i.K-1)
		default:
			return nil, false
		}
	default:
		return nil, false
	}
	return outs, outs != nil
}

// freeList tells that a list can be empty or not: that in the result of a parsed statement.
func freeList(e *Engine, t types.Type, v Val) bool {
	x, ok := e.sem.(interface{ FreeList(v Val) bool })
	if !ok || !x.FreeList(v) {
		return false
	}
	_, ok = t.Underlying().(*types.Slice)
	return ok
}

// independent tells that two texts can be the same or not.
func independent(x, y Val) bool {
	a, b := unknowable(x), unknowable(y)
	return a && b || a && isLost(y) || b && isLost(x)
}

func isLost(v Val) bool {
	if s, ok := v.(VStr); ok && len(s.P) == 1 {
		v = s.P[0]
	}
	_, ok := v.(VGone)
	return ok
}

// unknowable tells that a value can be anything its kind allows.
func unknowable(v Val) bool {
	switch x := v.(type) {
	case VLen, VAny:
		return true
	case VTop, VCur, VGone:
		return false
	case VStr:
		for _, p := range x.P {
			if !unknowable(p) {
				if _, c := p.(VConstStr); !c {
					return false
				}
			}
		}
		return true
	case DomVal:
		return true
	}
	return false
}

func negate(outs []Out) []Out {
	for i := range outs {
		if b, ok := outs[i].v.(VBool); ok {
			outs[i].v = !b
		}
	}
	return outs
}

// cmpAtLeast decides a comparison of a length with a number by the elements that are there for sure.
func (e *Engine) cmpAtLeast(st *State, op token.Token, l VLen, n VInt) (Val, bool) {
	v, ok := getPath(st.heap[l.Obj], pathSplit(l.Path))
	if !ok {
		return nil, false
	}
	arr, ok := v.(VArr)
	if !ok || l.Lo > len(arr.E) {
		return nil, false
	}
	min := int64(atLeast(arr.E[l.Lo:]) - l.Off)
	switch op {
	case token.EQL, token.NEQ, token.LEQ, token.GTR:
		if min > int64(n) {
			return VBool(op == token.NEQ || op == token.GTR), true
		}
	case token.LSS, token.GEQ:
		if min >= int64(n) {
			return VBool(op == token.GEQ), true
		}
	}
	return nil, false
}

func (e *Engine) compare(st *State, in *ssa.BinOp, op token.Token, x, y Val) []Out {
	if outs, ok := e.compareRest(st, in.X, x, op, y); ok {
		return outs
	}
	if outs, ok := e.compareRest(st, in.Y, y, flip(op), x); ok {
		return outs
	}
	if outs, ok := e.compareEnd(st, in.X, x, op, y); ok {
		return outs
	}
	if outs, ok := e.compareEnd(st, in.Y, y, flip(op), x); ok {
		return outs
	}
	// iteration over lists of unknown length
	if l, ok := y.(VLen); ok && l.Off == 0 {
		switch op {
		case token.LSS, token.NEQ:
			if outs, ok := e.cursor(st, in.X, x, l); ok {
				return outs
			}
		case token.GEQ, token.EQL:
			if outs, ok := e.cursor(st, in.X, x, l); ok {
				return negate(outs)
			}
		}
	}
	if l, ok := x.(VLen); ok && l.Off == 0 {
		switch op {
		case token.GTR, token.NEQ:
			if outs, ok := e.cursor(st, in.Y, y, l); ok {
				return outs
			}
		case token.LEQ, token.EQL:
			if outs, ok := e.cursor(st, in.Y, y, l); ok {
				return negate(outs)
			}
		}
	}
	if l, ok := x.(VLen); ok {
		if n, ok := y.(VInt); ok {
			if b, ok := e.cmpAtLeast(st, op, l, n); ok {
				return one(st, b)
			}
		}
	}
	if l, ok := y.(VLen); ok {
		if n, ok := x.(VInt); ok {
			if b, ok := e.cmpAtLeast(st, flip(op), l, n); ok {
				return one(st, b)
			}
		}
	}
	if b, known := e.equal(st, x, y); known && (op == token.EQL || op == token.NEQ) {
		return one(st, VBool(b == (op == token.EQL)))
	}
	if s, ok := constStr(x); ok {
		if t, ok := constStr(y); ok {
			var c int64
			if s < t {
				c = -1
			} else if s > t {
				c = 1
			}
			return one(st, VBool(cmpInt(op, c, 0)))
		}
	}
	for i := 0; i < 2; i++ {
		n, isInt := y.(VInt)
		if a, ok := x.(VAny); ok && isInt {
			if b, ok := affAtLeast(op, int64(a.Min), int64(n)); ok {
				return one(st, b)
			}
		}
		if c, ok := x.(VCur); ok && isInt && !c.Rev {
			if b, ok := e.cmpIndex(st, op, c, n); ok {
				return one(st, b)
			}
		}
		_, isStr := constStr(y)
		if unknowable(x) && (isInt || isStr) {
			return one(st, VAny{})
		}
		if _, isNil := y.(VNil); isNil && freeList(e, in.X.Type(), x) {
			return one(st, VAny{})
		}
		x, y, op = y, x, flip(op)
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && independent(x, y) {
		return one(st, VAny{})
	}
	if debugForks {
		e.report(nil, "FORK", 0, "cmp %s %s %s", encStr(x), op, encStr(y))
	}
	return one(st, VTop{})
}

// compareEnd decides whether an index that runs down a list has reached its beginning.
func (e *Engine) compareEnd(st *State, idx ssa.Value, x Val, op token.Token, y Val) ([]Out, bool) {
	n, ok := y.(VInt)
	if !ok {
		return nil, false
	}
	switch x := x.(type) {
	case VCur:
		if !x.Rev {
			return nil, false
		}
	case VLen:
	default:
		return nil, false
	}
	neg, past := false, false
	switch {
	case op == token.GEQ && n == 0, op == token.GTR && n == -1, op == token.NEQ && n == -1:
	case op == token.LSS && n == 0, op == token.LEQ && n == -1, op == token.EQL && n == -1:
		neg = true
	case op == token.GTR && n == 0, op == token.GEQ && n == 1, op == token.NEQ && n == 0:
		past = true
	case op == token.LEQ && n == 0, op == token.LSS && n == 1, op == token.EQL && n == 0:
		past, neg = true, true
	default:
		return nil, false
	}
	if _, isLen := x.(VLen); isLen && past {
		// a question for the length only, unless the index runs down
		if phi, ok := idx.(*ssa.Phi); !ok || len(phi.Edges) < 2 {
			return nil, false
		}
	}
	outs, ok := e.backCursor(st, idx, x, past)
	if ok && neg {
		outs = negate(outs)
	}
	return outs, ok
}

// cmpIndex compares the index of an element that is visited with a number.
func (e *Engine) cmpIndex(st *State, op token.Token, c VCur, n VInt) (Val, bool) {
	v, ok := getPath(st.heap[c.Obj], pathSplit(c.Path))
	if !ok {
		return nil, false
	}
	arr, ok := v.(VArr)
	if !ok || c.K > len(arr.E) {
		return nil, false
	}
	min, exact := atLeast(arr.E[:c.K]), hasSpread(arr.E[:c.K]) < 0
	if c.K < len(arr.E) {
		if _, isSpread := arr.E[c.K].(Spread); isSpread && !c.First {
			min++
			exact = false
		}
	}
	if c.Next {
		min++
	}
	if exact {
		return VBool(cmpInt(op, int64(min), int64(n))), true
	}
	if b, ok := affAtLeast(op, int64(min), int64(n)); ok {
		return b, true
	}
	return VAny{}, true
}

// equal decides the equality of two values when it can.
func (e *Engine) equal(st *State, x, y Val) (eq, known bool) {
	switch a := x.(type) {
	case VInt:
		if b, ok := y.(VInt); ok {
			return a == b, true
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			return a == b, true
		}
	case VNil:
		switch y.(type) {
		case VNil:
			return true, true
		case VPtr, VIface, VSlice, VMap, VFn, VAgr:
			return false, true
		}
	case VPtr:
		switch b := y.(type) {
		case VNil:
			return false, true
		case VPtr:
			return a == b, true
		}
	case VAgr:
		if sameVal(x, y) {
			return true, true
		}
		if _, ok := y.(VNil); ok {
			return false, true
		}
	case VSlice, VMap, VFn:
		if _, ok := y.(VNil); ok {
			return false, true
		}
	case VIface:
		switch b := y.(type) {
		case VNil:
			return false, true
		case VIface:
			if !types.Identical(a.T, b.T) {
				return false, true
			}
			return e.equal(st, a.V, b.V)
		}
	case VStr:
		s, ok1 := constStr(x)
		t, ok2 := constStr(y)
		if ok1 && ok2 {
			return s == t, true
		}
		if _, ok := y.(VStr); ok && sameVal(x, y) {
			for _, p := range a.P {
				if _, top := p.(VTop); top {
					return false, false
				}
			}
			return true, true
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(a.F) == len(b.F) {
			all := true
			for i := range a.F {
				eq, known := e.equal(st, a.F[i], b.F[i])
				if known && !eq {
					return false, true
				}
				all = all && known
			}
			if all {
				return true, true
			}
		}
	case VLen:
		if b, ok := y.(VLen); ok && a.Obj == b.Obj && a.Path == b.Path && a.Lo == b.Lo {
			return a.Off == b.Off, true
		}
	case VOpaque:
		if b, ok := y.(VOpaque); ok && a == b {
			return true, true
		}
	}
	return false, false
}

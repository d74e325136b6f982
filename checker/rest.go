package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// VRest is what an iteration that shortens its list from the front has left of
// it: the elements from the cursor on.
type VRest struct{ C VCur }

// Map implements DomVal.
func (v VRest) Map(m *Mapper) Val { return VRest{mapVal(v.C, m).(VCur)} }

// Enc implements DomVal.
func (v VRest) Enc(b *Enc) { b.WriteString("rest"); b.val(v.C) }

// VRestLen is the length of a VRest.
type VRestLen struct{ R VRest }

// Map implements DomVal.
func (v VRestLen) Map(m *Mapper) Val { return VRestLen{v.R.Map(m).(VRest)} }

// Enc implements DomVal.
func (v VRestLen) Enc(b *Enc) { b.WriteString("#"); v.R.Enc(b) }

// cursorOf is the position of an iteration that v holds.
func cursorOf(v Val) (VCur, bool) {
	switch v := v.(type) {
	case VCur:
		return v, true
	case VRest:
		return v.C, true
	}
	return VCur{}, false
}

// restOf finds the variable of an iteration that shortens its list whose
// length x is.
func restOf(x ssa.Value) *ssa.Phi {
	c, ok := x.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	phi, ok := c.Call.Args[0].(*ssa.Phi)
	if !ok {
		return nil
	}
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	for _, ed := range phi.Edges {
		if s, ok := ed.(*ssa.Slice); ok && s.X == phi && s.High == nil && s.Low != nil {
			return phi
		}
	}
	return nil
}

// compareRest decides whether anything is left of a list that is shortened.
func (e *Engine) compareRest(st *State, in ssa.Value, x Val, op token.Token, y Val) ([]Out, bool) {
	n, ok := y.(VInt)
	phi := restOf(in)
	if !ok || phi == nil {
		return nil, false
	}
	neg := false
	switch {
	case n == 0 && (op == token.GTR || op == token.NEQ), n == 1 && op == token.GEQ:
	case n == 0 && (op == token.LEQ || op == token.EQL), n == 1 && op == token.LSS:
		neg = true
	default:
		return nil, false
	}
	var idx Val
	var l VLen
	switch v := x.(type) {
	case VLen:
		if v.Off != 0 {
			return nil, false
		}
		idx, l = VInt(0), v
	case VRestLen:
		idx, l = v.R.C, VLen{Obj: v.R.C.Obj, Path: v.R.C.Path}
	default:
		return nil, false
	}
	e.restPhi = phi
	outs, ok := e.cursor(st, phi, idx, l)
	e.restPhi = nil
	if ok && neg {
		outs = negate(outs)
	}
	return outs, ok
}

// refineCursor tells where an iteration stands.
func (e *Engine) refineCursor(st *State, idx ssa.Value, c VCur) {
	if e.restPhi == nil {
		e.refine(st, idx, c)
		return
	}
	f := st.top()
	if k, ok := f.fi.idx[e.restPhi]; ok {
		f.regs[k] = VRest{c}
	}
}

package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// VErr is an error created outside the repository. It may wrap others.
type VErr struct {
	Kind  string
	Wraps []Val
}

// Map implements DomVal.
func (v VErr) Map(m *Mapper) Val { return VErr{v.Kind, mapVals(v.Wraps, m)} }

// Enc implements DomVal.
func (v VErr) Enc(b *Enc) { b.WriteString("E" + v.Kind); b.vals(v.Wraps) }

var errType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "externalError", nil), types.NewStruct(nil, nil), nil))

func newErr(kind string, wraps ...Val) Val { return VIface{errType, VErr{kind, wraps}} }

// BaseSem handles nothing.
type BaseSem struct{}

// Call implements Sem.
func (BaseSem) Call(e *Engine, st *State, site ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	return nil, false
}

// Invoke implements Sem.
func (BaseSem) Invoke(e *Engine, st *State, site ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool) {
	return nil, false
}

// BinOp implements Sem.
func (BaseSem) BinOp(e *Engine, st *State, in *ssa.BinOp, x, y Val) ([]Out, bool) { return nil, false }

// Load implements Sem.
func (BaseSem) Load(e *Engine, st *State, in *ssa.UnOp, p Val) ([]Out, bool) { return nil, false }

// Store implements Sem.
func (BaseSem) Store(e *Engine, st *State, in *ssa.Store, p, v Val) ([]*State, bool) {
	return nil, false
}

// FieldAddr implements Sem.
func (BaseSem) FieldAddr(e *Engine, st *State, in *ssa.FieldAddr, x Val) ([]Out, bool) {
	return nil, false
}

// Index implements Sem.
func (BaseSem) Index(e *Engine, st *State, in ssa.Instruction, x, i Val) ([]Out, bool) {
	return nil, false
}

// Slice implements Sem.
func (BaseSem) Slice(e *Engine, st *State, in *ssa.Slice, x, lo, hi Val) ([]Out, bool) {
	return nil, false
}

// TypeAssert implements Sem.
func (BaseSem) TypeAssert(e *Engine, st *State, in *ssa.TypeAssert, x Val) ([]Out, bool) {
	return nil, false
}

// Lookup implements Sem.
func (BaseSem) Lookup(e *Engine, st *State, in *ssa.Lookup, m VMapC, key Val) ([]Out, bool) {
	return nil, false
}

// Convert implements Sem.
func (BaseSem) Convert(e *Engine, st *State, in *ssa.Convert, x Val) ([]Out, bool) { return nil, false }

// Len implements Sem.
func (BaseSem) Len(e *Engine, st *State, x Val) (Val, bool) { return nil, false }

// Append implements Sem.
func (BaseSem) Append(e *Engine, st *State, site ssa.CallInstruction, x, y Val) ([]Out, bool) {
	return nil, false
}

// LoopHead implements Sem.
func (BaseSem) LoopHead(e *Engine, st *State) bool { return true }

// ListEnd implements Sem.
func (BaseSem) ListEnd(e *Engine, st *State, sp Spread, empty bool) bool { return true }

// Canon implements Sem.
func (BaseSem) Canon(e *Engine, st *State) {}

// Finish implements Sem.
func (BaseSem) Finish(e *Engine, st *State, results []Val) {}

var unknownStr = VStr{[]Val{VTop{}}}

// sprintf formats as far as it is known. Other verbs give unknown text.
func (e *Engine) sprintf(st *State, format, args Val) (Val, []Val) {
	f, ok := constStr(format)
	its, ok2 := e.items(st, args)
	if !ok || !ok2 {
		return unknownStr, nil
	}
	var ps, wraps []Val
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			ps = append(ps, VConstStr(f[i:i+1]))
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			ps = append(ps, VConstStr("%"))
			continue
		}
		if n >= len(its) {
			return unknownStr, wraps
		}
		arg := its[n]
		n++
		if f[i] == 'w' {
			wraps = append(wraps, arg)
		}
		if a, ok := arg.(VIface); ok && (f[i] == 's' || f[i] == 'v') {
			if s, ok := a.V.(VStr); ok {
				ps = append(ps, s.P...)
				continue
			}
		}
		ps = append(ps, VTop{})
	}
	return strOf(ps...), wraps
}

// model gives the meaning of functions outside the repository.
func (e *Engine) model(st *State, site ssa.CallInstruction, name string, fn *ssa.Function, args []Val) ([]Out, bool) {
	str := func(i int) (string, bool) { return constStr(args[i]) }
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		switch {
		case strings.Contains(name, "Fatal") || strings.Contains(name, "Panic"):
			e.report(st, "panic", site.Pos(), "%s is reachable", name)
			return nil, true
		case strings.Contains(name, "Print") || strings.HasSuffix(name, "Output"):
			return one(st, VNil{}), true
		}
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		p, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		fld := 1
		if strings.HasPrefix(name, "(*bytes") {
			fld = 0
		}
		q := VPtr{p.Obj, pathAdd(p.Path, fld)}
		cur, _ := st.load(q)
		text, ok := cur.(VStr)
		if !ok {
			text = VStr{}
		}
		set := func(v Val, r Val) ([]Out, bool) {
			n, ok := setPath(st.heap[q.Obj], pathSplit(q.Path), v)
			if !ok {
				return nil, false
			}
			st.heap[q.Obj] = n
			return one(st, r), true
		}
		switch name[strings.Index(name, ").")+2:] {
		case "WriteString":
			s, ok := args[1].(VStr)
			if !ok {
				s = unknownStr
			}
			return set(strOf(text, s), VTuple{[]Val{VTop{}, VNil{}}})
		case "WriteRune", "WriteByte":
			var s Val = unknownStr
			if c, ok := args[1].(VInt); ok {
				s = strOf(VConstStr(string(rune(c))))
			} else if outs, ok := e.sem.Convert(e, st, nil, args[1]); ok && len(outs) == 1 {
				s = outs[0].v
			}
			r := Val(VNil{})
			if strings.HasSuffix(name, "WriteRune") {
				r = VTuple{[]Val{VTop{}, VNil{}}}
			}
			return set(strOf(text, s), r)
		case "String":
			return one(st, text), true
		case "Len":
			if l, ok := e.lenOf(st, text); ok {
				return one(st, l), true
			}
			return one(st, VTop{}), true
		case "Reset":
			return set(VNil{}, VTuple{})
		case "Grow":
			return one(st, VTuple{}), true
		}
		return nil, false
	}
	switch name {
	case "fmt.Sprintf":
		s, _ := e.sprintf(st, args[0], args[1])
		return one(st, s), true
	case "fmt.Sprint", "fmt.Sprintln":
		return one(st, unknownStr), true
	case "fmt.Errorf":
		_, wraps := e.sprintf(st, args[0], args[1])
		return one(st, newErr("fmt", wraps...)), true
	case "errors.New":
		return one(st, newErr("new")), true
	case "errors.Is", "errors.As":
		return one(st, VTop{}), true
	case "errors.Unwrap":
		return one(st, VTop{}), true
	case "(error).Error":
		if _, ok := args[0].(VNil); ok {
			e.report(st, "panic", site.Pos(), "Error is called on a nil error")
			return nil, true
		}
		return one(st, unknownStr), true
	case "runtime.Caller":
		return one(st, VTuple{[]Val{VTop{}, unknownStr, VTop{}, VTop{}}}), true
	case "path/filepath.Base", "path.Base", "strconv.Itoa", "strconv.Quote":
		return one(st, unknownStr), true
	case "strings.Join":
		its, ok := e.items(st, args[0])
		if ok && hasSpread(its) < 0 {
			var ps []Val
			for i, it := range its {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, it)
			}
			return one(st, strOf(ps...)), true
		}
	case "strings.Repeat":
		if s, ok := str(0); ok {
			if n, ok := args[1].(VInt); ok && n >= 0 && n < 1000 {
				return one(st, strOf(VConstStr(strings.Repeat(s, int(n))))), true
			}
		}
	case "unicode/utf8.RuneLen":
		if r, ok := args[0].(VInt); ok {
			return one(st, VInt(utf8.RuneLen(rune(r)))), true
		}
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			return one(st, VInt(utf8.RuneCountInString(s))), true
		}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
		if s, ok := str(0); ok {
			f := utf8.DecodeRuneInString
			if strings.Contains(name, "Last") {
				f = utf8.DecodeLastRuneInString
			}
			r, n := f(s)
			return one(st, VTuple{[]Val{VInt(r), VInt(n)}}), true
		}
	}
	if p, ok := runePreds[name]; ok {
		if r, ok := args[0].(VInt); ok {
			return one(st, VBool(p(rune(r)))), true
		}
	}
	if len(args) == 2 {
		a, ok1 := str(0)
		b, ok2 := str(1)
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return one(st, VBool(strings.HasPrefix(a, b))), true
			case "strings.HasSuffix":
				return one(st, VBool(strings.HasSuffix(a, b))), true
			case "strings.Contains":
				return one(st, VBool(strings.Contains(a, b))), true
			case "strings.EqualFold":
				return one(st, VBool(strings.EqualFold(a, b))), true
			case "strings.TrimPrefix":
				return one(st, strOf(VConstStr(strings.TrimPrefix(a, b)))), true
			case "strings.TrimSuffix":
				return one(st, strOf(VConstStr(strings.TrimSuffix(a, b)))), true
			case "strings.Index":
				return one(st, VInt(strings.Index(a, b))), true
			}
		}
	}
	if len(args) == 1 {
		if a, ok := str(0); ok {
			switch name {
			case "strconv.Atoi":
				n, err := strconv.Atoi(a)
				if err != nil {
					return one(st, VTuple{[]Val{VInt(0), newErr("new")}}), true
				}
				return one(st, VTuple{[]Val{VInt(n), VNil{}}}), true
			case "strings.ToLower":
				return one(st, strOf(VConstStr(strings.ToLower(a)))), true
			case "strings.ToUpper":
				return one(st, strOf(VConstStr(strings.ToUpper(a)))), true
			case "strings.TrimSpace":
				return one(st, strOf(VConstStr(strings.TrimSpace(a)))), true
			}
		}
	}
	// pure functions with unknown results
	if fn != nil && fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "strings", "strconv", "unicode", "unicode/utf8", "path", "path/filepath", "fmt", "errors", "bytes", "math":
			if fn.Signature.Recv() == nil {
				return one(st, unknownOf(fn.Signature.Results())), true
			}
		}
	}
	return nil, false
}

// unknownOf is an unknown result of a signature.
func unknownOf(t *types.Tuple) Val {
	var f []Val
	for i := 0; i < t.Len(); i++ {
		f = append(f, unknownType(t.At(i).Type()))
	}
	if len(f) == 1 {
		return f[0]
	}
	return VTuple{f}
}

func unknownType(t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return unknownStr
	}
	return VTop{}
}

// rangeTable is the table that a global of the package unicode points to.
func rangeTable(v ssa.Value) (string, *unicode.RangeTable) {
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return "", nil
	}
	g, ok := l.X.(*ssa.Global)
	if !ok || g.Pkg.Pkg.Path() != "unicode" {
		return "", nil
	}
	n := g.Name()
	if long, ok := longTables[n]; ok {
		n = long
	}
	for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		if t, ok := m[n]; ok {
			return n, t
		}
	}
	return "", nil
}

var longTables = map[string]string{
	"Letter": "L", "Upper": "Lu", "Lower": "Ll", "Title": "Lt", "Digit": "Nd", "Number": "N", "Mark": "M",
	"Space": "Z", "Punct": "P", "Symbol": "S", "Other": "C",
}

// tablePred is the predicate of a call of unicode.Is, In or IsOneOf.
func tablePred(c *ssa.CallCommon) (string, func(rune) bool, ssa.Value) {
	fn := c.StaticCallee()
	if fn == nil || len(c.Args) < 2 {
		return "", nil, nil
	}
	switch fn.RelString(nil) {
	case "unicode.Is":
		if n, t := rangeTable(c.Args[0]); t != nil {
			return "unicode.Is " + n, func(r rune) bool { return unicode.Is(t, r) }, c.Args[1]
		}
	case "unicode.In":
		s, ok := c.Args[1].(*ssa.Slice)
		if !ok || s.X.Referrers() == nil {
			return "", nil, nil
		}
		name := "unicode.In"
		var ts []*unicode.RangeTable
		for _, in := range *s.X.Referrers() {
			a, ok := in.(*ssa.IndexAddr)
			if !ok || a.Referrers() == nil {
				continue
			}
			for _, u := range *a.Referrers() {
				if w, ok := u.(*ssa.Store); ok {
					n, t := rangeTable(w.Val)
					if t == nil {
						return "", nil, nil
					}
					name += " " + n
					ts = append(ts, t)
				}
			}
		}
		if len(ts) > 0 {
			return name, func(r rune) bool { return unicode.In(r, ts...) }, c.Args[0]
		}
	}
	return "", nil, nil
}

var runePreds = map[string]func(rune) bool{
	"unicode.IsSpace":        unicode.IsSpace,
	"unicode.IsLetter":       unicode.IsLetter,
	"unicode.IsDigit":        unicode.IsDigit,
	"unicode.IsNumber":       unicode.IsNumber,
	"unicode.IsUpper":        unicode.IsUpper,
	"unicode.IsLower":        unicode.IsLower,
	"unicode.IsPunct":        unicode.IsPunct,
	"unicode.IsControl":      unicode.IsControl,
	"unicode.IsPrint":        unicode.IsPrint,
	"unicode.IsGraphic":      unicode.IsGraphic,
	"unicode.IsSymbol":       unicode.IsSymbol,
	"unicode.IsMark":         unicode.IsMark,
	"unicode.IsTitle":        unicode.IsTitle,
	"unicode/utf8.ValidRune": utf8.ValidRune,
}

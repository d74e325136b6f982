package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Every Val is immutable.
type Val interface{}

// DomVal is an abstract value that belongs to one of the analysis domains.
type DomVal interface {
	Map(m *Mapper) Val
	Enc(b *Enc)
}

type (
	// VInt is a known integer, rune or enum constant.
	VInt int64
	// VBool is a known boolean.
	VBool bool
	// VNil is the nil pointer, slice, map, func or interface.
	VNil struct{}
	// VTop is an unknown value.
	VTop struct{}
	// VOpaque is an unknown value that is equal to itself.
	VOpaque struct{ Name string }
	// VStr is a string given as the concatenation of pieces.
	VStr struct{ P []Val }
	// VConstStr is a constant piece of a string.
	VConstStr string
	// VPtr points into a heap object.
	VPtr struct {
		Obj  int
		Path string
	}
	// VStruct is a struct value.
	VStruct struct{ F []Val }
	// VArr is an array (the backing store of slices). E may contain spread
	// elements (values that implement Spread).
	VArr struct{ E []Val }
	// VTuple is a multi-value result.
	VTuple struct{ F []Val }
	// VIface is a non-nil interface value.
	VIface struct {
		T types.Type
		V Val
	}
	// VFn is a function value.
	VFn struct {
		Fn *ssa.Function
		B  []Val
	}
	// VBuiltin is a builtin function.
	VBuiltin string
	// VSlice is a non-nil slice of a heap array. Hi is -1 when the slice extends to the end.
	VSlice struct {
		Obj    int
		Path   string
		Lo, Hi int
	}
	// VMap refers to a heap object holding a VMapC.
	VMap struct{ Obj int }
	// VMapC is the content of a map with known keys.
	VMapC struct{ K, V []Val }
	// VLen is the unknown length of a list (the array object) minus Off.
	VLen struct {
		Obj  int
		Path string
		Lo   int
		Off  int
	}
	// VCur is a position of an iteration over the array of a slice.
	// It stands in the K-th item, which is a spread. Next means that the
	// element under the cursor has been left.
	// First is set while the first element of the spread is visited.
	VCur struct {
		Obj   int
		Path  string
		K     int
		Next  bool
		First bool
		// Rev is set while the list is visited from its end; Past tells that
		// the index is one more than that of the element.
		Rev, Past bool
	}
	// VMapIter iterates over the content of a map or string.
	VIter struct {
		Of Val
		I  int
	}
)

// Spread is an item of an array that stands for any number of elements.
type Spread interface {
	// Element is the value of an arbitrary element.
	Element() Val
}

// VAny is a number or a truth value that can be anything (from Min on), whatever
// else is known. A branch on it is taken both ways; the branch on a VTop is taken
// both ways too, but what is found behind it may be impossible.
type VAny struct{ Min int }

// Map implements DomVal.
func (v VAny) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VAny) Enc(b *Enc) { b.WriteString("any"); b.ints(v.Min) }

// Mapper renames the identities that occur in a value.
type Mapper struct {
	Ptr  func(p VPtr) Val
	Obj  func(int) int
	Item func(int) int
	Lam  func(int) int
	// Bound renames boundaries between items.
	Bound func(int) int
	// Text is told the items whose contents are referred to.
	Text func(int)
	// Str rewrites strings.
	Str func(VStr) VStr
}

func (m *Mapper) obj(i int) int {
	if m.Obj == nil {
		return i
	}
	return m.Obj(i)
}

func (m *Mapper) item(i int) int {
	if m.Item == nil {
		return i
	}
	return m.Item(i)
}

// content is item for values that refer to what the item holds, not only to its place.
func (m *Mapper) content(i int) int {
	if m.Text != nil {
		m.Text(i)
	}
	return m.item(i)
}

func (m *Mapper) bound(i int) int {
	if m.Bound == nil {
		return i
	}
	return m.Bound(i)
}

func (m *Mapper) lam(i int) int {
	if m.Lam == nil {
		return i
	}
	return m.Lam(i)
}

func mapVals(vs []Val, m *Mapper) []Val {
	if vs == nil {
		return nil
	}
	r := make([]Val, len(vs))
	for i, v := range vs {
		r[i] = mapVal(v, m)
	}
	return r
}

func mapVal(v Val, m *Mapper) Val {
	switch v := v.(type) {
	case nil, VInt, VBool, VNil, VTop, VOpaque, VConstStr, VBuiltin:
		return v
	case VStr:
		if m.Str != nil {
			return m.Str(VStr{mapVals(v.P, m)})
		}
		return VStr{mapVals(v.P, m)}
	case VPtr:
		if m.Ptr != nil {
			return m.Ptr(v)
		}
		return VPtr{m.obj(v.Obj), v.Path}
	case VStruct:
		return VStruct{mapVals(v.F, m)}
	case VArr:
		return VArr{mapVals(v.E, m)}
	case VTuple:
		return VTuple{mapVals(v.F, m)}
	case VIface:
		return VIface{v.T, mapVal(v.V, m)}
	case VFn:
		return VFn{v.Fn, mapVals(v.B, m)}
	case VSlice:
		return VSlice{m.obj(v.Obj), v.Path, v.Lo, v.Hi}
	case VMap:
		return VMap{m.obj(v.Obj)}
	case VMapC:
		return VMapC{mapVals(v.K, m), mapVals(v.V, m)}
	case VLen:
		return VLen{m.obj(v.Obj), v.Path, v.Lo, v.Off}
	case VCur:
		v.Obj = m.obj(v.Obj)
		return v
	case VIter:
		return VIter{mapVal(v.Of, m), v.I}
	case DomVal:
		return v.Map(m)
	}
	panic(fmt.Sprintf("mapVal: %T", v))
}

// Enc writes canonical encodings.
type Enc struct{ buf []byte }

// WriteByte appends a byte.
func (b *Enc) WriteByte(c byte) error { b.buf = append(b.buf, c); return nil }

// WriteString appends a string.
func (b *Enc) WriteString(s string) { b.buf = append(b.buf, s...) }

func (b *Enc) String() string { return string(b.buf) }

func (b *Enc) ints(is ...int) {
	for _, i := range is {
		b.buf = strconv.AppendInt(b.buf, int64(i), 10)
		b.buf = append(b.buf, ',')
	}
}

func (b *Enc) bools(bs ...bool) {
	for _, x := range bs {
		if x {
			b.buf = append(b.buf, 't')
		} else {
			b.buf = append(b.buf, 'f')
		}
	}
}

func (b *Enc) vals(vs []Val) {
	b.WriteByte('(')
	for _, v := range vs {
		b.val(v)
		b.WriteByte(' ')
	}
	b.WriteByte(')')
}

func (b *Enc) val(v Val) {
	switch v := v.(type) {
	case nil:
		b.WriteByte('_')
	case VInt:
		b.buf = strconv.AppendInt(b.buf, int64(v), 10)
	case VBool:
		b.bools(bool(v))
	case VNil:
		b.WriteString("nil")
	case VTop:
		b.WriteString("T")
	case VOpaque:
		b.WriteString("?" + v.Name)
	case VConstStr:
		b.buf = strconv.AppendQuote(b.buf, string(v))
	case VBuiltin:
		b.WriteString("B" + string(v))
	case VStr:
		b.WriteByte('s')
		b.vals(v.P)
	case VPtr:
		b.WriteByte('&')
		b.ints(v.Obj)
		b.WriteString(v.Path)
	case VStruct:
		b.WriteByte('S')
		b.vals(v.F)
	case VArr:
		b.WriteByte('A')
		b.vals(v.E)
	case VTuple:
		b.WriteByte('U')
		b.vals(v.F)
	case VIface:
		b.WriteString("I" + typeKey(v.T))
		b.val(v.V)
	case VFn:
		b.WriteString("F" + fnKey(v.Fn))
		b.vals(v.B)
	case VSlice:
		b.WriteByte('L')
		b.ints(v.Obj, v.Lo, v.Hi)
		b.WriteString(v.Path)
	case VMap:
		b.WriteByte('M')
		b.ints(v.Obj)
	case VMapC:
		b.WriteByte('m')
		b.vals(v.K)
		b.vals(v.V)
	case VLen:
		b.WriteByte('#')
		b.ints(v.Obj, v.Lo, v.Off)
		b.WriteString(v.Path)
	case VCur:
		b.WriteByte('@')
		b.ints(v.Obj, v.K)
		b.WriteString(v.Path)
		b.bools(v.Next, v.First, v.Rev, v.Past)
	case VIter:
		b.WriteByte('R')
		b.val(v.Of)
		b.ints(v.I)
	case DomVal:
		v.Enc(b)
	default:
		panic(fmt.Sprintf("enc: %T", v))
	}
}

func encStr(v Val) string {
	var b Enc
	b.val(v)
	return b.String()
}

func sameVal(a, b Val) bool { return encStr(a) == encStr(b) }

// strOf makes a string value of pieces and merges adjacent constants.
func strOf(ps ...Val) VStr {
	var out []Val
	var add func(p Val)
	add = func(p Val) {
		switch p := p.(type) {
		case VStr:
			for _, q := range p.P {
				add(q)
			}
			return
		case VConstStr:
			if p == "" {
				return
			}
			if n := len(out); n > 0 {
				if c, ok := out[n-1].(VConstStr); ok {
					out[n-1] = c + p
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		add(p)
	}
	return VStr{out}
}

func constStr(v Val) (string, bool) {
	s, ok := v.(VStr)
	if !ok {
		return "", false
	}
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if c, ok := s.P[0].(VConstStr); ok {
			return string(c), true
		}
	}
	return "", false
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&(types.IsInteger) != 0:
			return VInt(0)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VTop{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			return VTop{}
		}
		e := make([]Val, n)
		for i := range e {
			e[i] = zeroVal(u.Elem())
		}
		return VArr{e}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VNil{}
}

// Paths are sequences of ".i" steps: field or element indices.
func pathAdd(p string, i int) string { return fmt.Sprintf("%s.%d", p, i) }

func pathSplit(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	n := 0
	for i := 1; i < len(p); i++ {
		if p[i] == '.' {
			r = append(r, n)
			n = 0
		} else {
			n = n*10 + int(p[i]-'0')
		}
	}
	return append(r, n)
}

func getPath(v Val, path []int) (Val, bool) {
	for _, i := range path {
		switch u := v.(type) {
		case VStruct:
			if i >= len(u.F) {
				return nil, false
			}
			v = u.F[i]
		case VArr:
			if i >= len(u.E) {
				return nil, false
			}
			v = u.E[i]
		case VTop:
			return VTop{}, true
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, path []int, x Val) (Val, bool) {
	if len(path) == 0 {
		return x, true
	}
	i := path[0]
	switch u := v.(type) {
	case VStruct:
		if i >= len(u.F) {
			return nil, false
		}
		n, ok := setPath(u.F[i], path[1:], x)
		if !ok {
			return nil, false
		}
		f := append([]Val(nil), u.F...)
		f[i] = n
		return VStruct{f}, true
	case VArr:
		if i >= len(u.E) {
			return nil, false
		}
		n, ok := setPath(u.E[i], path[1:], x)
		if !ok {
			return nil, false
		}
		e := append([]Val(nil), u.E...)
		e[i] = n
		return VArr{e}, true
	}
	return nil, false
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	k, ok := typeKeys[t]
	if !ok {
		k = t.String()
		typeKeys[t] = k
	}
	return k
}

var fnKeys = map[*ssa.Function]string{}

func fnKey(f *ssa.Function) string {
	k, ok := fnKeys[f]
	if !ok {
		k = f.RelString(nil)
		fnKeys[f] = k
	}
	return k
}

package main

// Values of the token domain. Items are the lexemes, comments and parsed
// statements of the source, in order; see TokDom.

type (
	// VTok is the token kind of an item read under a mode.
	VTok struct {
		Item int
		Mode int64
	}
	// VTxt is the text of an item, or its first character.
	VTxt struct {
		Item int
		Part bool
	}
	// VFold is a function of the text of an item.
	VFold struct {
		Item int
		Part bool
		F    string
	}
	// VInner is the text of a string literal without its quotes.
	VInner struct{ Item int }
	// VReq is the inner text of a string literal rewritten for another quote.
	VReq struct {
		Quote string
		Item  int
	}
	// VNTText is the string result of a parsed part.
	VNTText struct{ Item int }
	// VNTF is a field of the result of a parsed statement.
	VNTF struct{ Item, Field int }
	// VSig is an unknown string that code and specification agree on.
	VSig struct{ ID int }
	// VLam is an unknown list that code and specification agree on.
	VLam struct{ ID int }
	// VInit is such a list (of at least one element) without its last (or first) element.
	VInit struct {
		Of   VLam
		Tail bool
	}
	// VLastS stands for the last (or first) element of such a list.
	VLastS struct {
		Of    VLam
		First bool
	}
	// VMid is the list of the scanned comments between two positions.
	VMid struct{ From, To Val }
	// VElem is the element of a spread that is being visited.
	VElem struct{ Src Val }
	// VElemF is a field of such an element.
	VElemF struct {
		Elem Val
		Path string
	}
	// VPart holds the images of the visited elements of a spread.
	VPart struct{ Src, Tmpl Val }
	// VMapped holds the images of all elements of a spread.
	VMapped struct{ Src, Tmpl Val }
	// VPos is a number of a source position. Kind is S (start of the item), E
	// (its last character) or A (behind it), Field is O, L or C.
	VPos struct {
		Item  int
		Kind  byte
		Field byte
	}
	// VRaw is a span of items: raw text that can be put back.
	VRaw struct {
		Lo, Hi int
		OK     bool
	}
	// VRune is the first character of an item.
	VRune struct{ Item int }
	// VTLen is the length of a text plus an offset.
	VTLen struct {
		Of  Val
		Off int
	}
	// VRepl is a string replacer.
	VRepl struct{ Args []Val }
	// EObj is an expected pointer to a struct.
	EObj struct {
		Type string
		F    []EField
	}
	// EField is an expected field.
	EField struct {
		Name string
		V    Val
	}
	// ENT is the expected result of a parsed statement with some fields set.
	ENT struct {
		Item int
		F    []EField
	}
	// VGone is a part of an item that the analysis does not follow any more. It
	// is not a part of the items that it does follow.
	VGone struct{}
	// EPos is an expected position.
	EPos struct {
		Item int
		Kind byte
	}
)

// Map implements DomVal.
func (v VTok) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VTok{i, v.Mode}
}

// Enc implements DomVal.
func (v VTok) Enc(b *Enc) { b.WriteByte('k'); b.ints(v.Item, int(v.Mode)) }

// Map implements DomVal.
func (v VTxt) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VTxt{i, v.Part}
}

// Enc implements DomVal.
func (v VTxt) Enc(b *Enc) { b.WriteByte('x'); b.ints(v.Item); b.bools(v.Part) }

// Map implements DomVal.
func (v VFold) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VFold{i, v.Part, v.F}
}

// Enc implements DomVal.
func (v VFold) Enc(b *Enc) { b.WriteString("fo" + v.F); b.ints(v.Item); b.bools(v.Part) }

// Map implements DomVal.
func (v VInner) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VInner{i}
}

// Enc implements DomVal.
func (v VInner) Enc(b *Enc) { b.WriteByte('i'); b.ints(v.Item) }

// Map implements DomVal.
func (v VReq) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VReq{v.Quote, i}
}

// Enc implements DomVal.
func (v VReq) Enc(b *Enc) { b.WriteString("rq" + v.Quote); b.ints(v.Item) }

// Map implements DomVal.
func (v VNTText) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VNTText{i}
}

// Enc implements DomVal.
func (v VNTText) Enc(b *Enc) { b.WriteByte('n'); b.ints(v.Item) }

// Map implements DomVal.
func (v VNTF) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VGone{}
	}
	return VNTF{i, v.Field}
}

// Enc implements DomVal.
func (v VNTF) Enc(b *Enc) { b.WriteString("nf"); b.ints(v.Item, v.Field) }

// Map implements DomVal.
func (v VSig) Map(m *Mapper) Val { return VSig{m.lam(v.ID)} }

// Enc implements DomVal.
func (v VSig) Enc(b *Enc) { b.WriteByte('$'); b.ints(v.ID) }

// Map implements DomVal.
func (v VLam) Map(m *Mapper) Val { return VLam{m.lam(v.ID)} }

// Enc implements DomVal.
func (v VLam) Enc(b *Enc) { b.WriteByte('l'); b.ints(v.ID) }

// Element implements Spread.
func (v VLam) Element() Val { return VElem{v} }

// Map implements DomVal.
func (v VInit) Map(m *Mapper) Val { return VInit{VLam{m.lam(v.Of.ID)}, v.Tail} }

// Enc implements DomVal.
func (v VInit) Enc(b *Enc) { b.WriteString("li"); b.ints(v.Of.ID); b.bools(v.Tail) }

// Element implements Spread.
func (v VInit) Element() Val { return VElem{v} }

// Map implements DomVal.
func (v VLastS) Map(m *Mapper) Val { return VLastS{VLam{m.lam(v.Of.ID)}, v.First} }

// Enc implements DomVal.
func (v VLastS) Enc(b *Enc) { b.WriteString("ll"); b.ints(v.Of.ID); b.bools(v.First) }

// Map implements DomVal.
func (v VMid) Map(m *Mapper) Val { return VMid{mapVal(v.From, m), mapVal(v.To, m)} }

// Enc implements DomVal.
func (v VMid) Enc(b *Enc) { b.WriteString("mid"); b.val(v.From); b.val(v.To) }

// Element implements Spread.
func (v VMid) Element() Val { return VElem{v} }

// Map implements DomVal.
func (v VElem) Map(m *Mapper) Val { return VElem{mapVal(v.Src, m)} }

// Enc implements DomVal.
func (v VElem) Enc(b *Enc) { b.WriteByte('e'); b.val(v.Src) }

// Map implements DomVal.
func (v VElemF) Map(m *Mapper) Val { return VElemF{mapVal(v.Elem, m), v.Path} }

// Enc implements DomVal.
func (v VElemF) Enc(b *Enc) { b.WriteString("ef" + v.Path); b.val(v.Elem) }

// Map implements DomVal.
func (v VPart) Map(m *Mapper) Val { return VPart{mapVal(v.Src, m), mapVal(v.Tmpl, m)} }

// Enc implements DomVal.
func (v VPart) Enc(b *Enc) { b.WriteString("pt"); b.val(v.Src); b.val(v.Tmpl) }

// Element implements Spread.
func (v VPart) Element() Val { return VElem{v} }

// Map implements DomVal.
func (v VMapped) Map(m *Mapper) Val { return VMapped{mapVal(v.Src, m), mapVal(v.Tmpl, m)} }

// Enc implements DomVal.
func (v VMapped) Enc(b *Enc) { b.WriteString("mp"); b.val(v.Src); b.val(v.Tmpl) }

// Element implements Spread.
func (v VMapped) Element() Val { return VElem{v} }

// Map implements DomVal.
func (v VPos) Map(m *Mapper) Val {
	i := v.Item
	if i >= 0 {
		i = m.item(i)
		if i < 0 {
			return VTop{}
		}
	}
	return VPos{i, v.Kind, v.Field}
}

// Enc implements DomVal.
func (v VPos) Enc(b *Enc) { b.WriteString("p" + string([]byte{v.Kind, v.Field})); b.ints(v.Item) }

// Map implements DomVal.
func (v VRaw) Map(m *Mapper) Val {
	if !v.OK {
		return v
	}
	lo, hi := m.bound(v.Lo), m.bound(v.Hi)
	if lo < 0 || hi < 0 {
		return VRaw{}
	}
	return VRaw{lo, hi, true}
}

// Enc implements DomVal.
func (v VRaw) Enc(b *Enc) { b.WriteByte('w'); b.ints(v.Lo, v.Hi); b.bools(v.OK) }

// Map implements DomVal.
func (v VRune) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VTop{}
	}
	return VRune{i}
}

// Enc implements DomVal.
func (v VRune) Enc(b *Enc) { b.WriteByte('u'); b.ints(v.Item) }

// Map implements DomVal.
func (v VTLen) Map(m *Mapper) Val { return VTLen{mapVal(v.Of, m), v.Off} }

// Enc implements DomVal.
func (v VTLen) Enc(b *Enc) { b.WriteString("tl"); b.val(v.Of); b.ints(v.Off) }

// Map implements DomVal.
func (v VRepl) Map(m *Mapper) Val { return VRepl{mapVals(v.Args, m)} }

// Enc implements DomVal.
func (v VRepl) Enc(b *Enc) { b.WriteString("rp"); b.vals(v.Args) }

func mapFields(fs []EField, m *Mapper) []EField {
	r := make([]EField, len(fs))
	for i, f := range fs {
		r[i] = EField{f.Name, mapVal(f.V, m)}
	}
	return r
}

func encFields(fs []EField, b *Enc) {
	for _, f := range fs {
		b.WriteString(f.Name + "=")
		b.val(f.V)
	}
}

// Map implements DomVal.
func (v EObj) Map(m *Mapper) Val { return EObj{v.Type, mapFields(v.F, m)} }

// Enc implements DomVal.
func (v EObj) Enc(b *Enc) { b.WriteString("{" + v.Type); encFields(v.F, b); b.WriteByte('}') }

// Map implements DomVal.
func (v ENT) Map(m *Mapper) Val {
	i := m.content(v.Item)
	if i < 0 {
		return VTop{}
	}
	return ENT{i, mapFields(v.F, m)}
}

// Enc implements DomVal.
func (v ENT) Enc(b *Enc) { b.WriteString("{NT"); b.ints(v.Item); encFields(v.F, b); b.WriteByte('}') }

// Map implements DomVal.
func (v EPos) Map(m *Mapper) Val {
	i := m.item(v.Item)
	if i < 0 {
		return VTop{}
	}
	return EPos{i, v.Kind}
}

// Enc implements DomVal.
func (v EPos) Enc(b *Enc) { b.WriteString("ep" + string([]byte{v.Kind})); b.ints(v.Item) }

func setField(fs []EField, name string, v Val) []EField {
	r := append([]EField(nil), fs...)
	for i := range r {
		if r[i].Name == name {
			r[i].V = v
			return r
		}
	}
	r = append(r, EField{name, v})
	for i := len(r) - 1; i > 0 && r[i].Name < r[i-1].Name; i-- {
		r[i], r[i-1] = r[i-1], r[i]
	}
	return r
}

// FreeList tells that a list is part of the result of a parsed statement.
func (s *TokSem) FreeList(v Val) bool {
	switch v.(type) {
	case VNTF, VGone:
		return true
	}
	return false
}

// Map implements DomVal.
func (v VGone) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VGone) Enc(b *Enc) { b.WriteString("gone") }

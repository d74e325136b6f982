package main

import (
	"fmt"
	"go/constant"
	"go/types"
)

// The specification: for every parsed element an automaton over lexemes,
// comments and nested elements, whose registers build the expected element.

// ActCtx is what an action works on.
type ActCtx struct {
	regs []EField
	item int
}

func (c *ActCtx) get(name string) Val {
	for _, f := range c.regs {
		if f.Name == name {
			return f.V
		}
	}
	return nil
}

func (c *ActCtx) set(name string, v Val) { c.regs = setField(c.regs, name, v) }

func (c *ActCtx) del(name string) {
	var r []EField
	for _, f := range c.regs {
		if f.Name != name {
			r = append(r, f)
		}
	}
	c.regs = r
}

func (c *ActCtx) list(name string) []Val {
	if a, ok := c.get(name).(VArr); ok {
		return a.E
	}
	return nil
}

func (c *ActCtx) push(name string, vs ...Val) {
	if _, lost := c.get(name).(VLost); lost {
		return
	}
	if len(vs) == 0 {
		return
	}
	c.set(name, VArr{append(append([]Val(nil), c.list(name)...), vs...)})
}

func (c *ActCtx) cat(name string, vs ...Val) {
	cur := c.get(name)
	if _, lost := cur.(VLost); lost {
		return
	}
	var ps []Val
	if s, ok := cur.(VStr); ok {
		ps = append(ps, s)
	}
	c.set(name, strOf(append(ps, vs...)...))
}

// setLast sets a field of the last element of a list.
func (c *ActCtx) setLast(list, field string, v Val) bool {
	l := append([]Val(nil), c.list(list)...)
	if len(l) == 0 {
		return false
	}
	switch o := l[len(l)-1].(type) {
	case EObj:
		l[len(l)-1] = EObj{o.Type, setField(o.F, field, v)}
	case ENT:
		l[len(l)-1] = ENT{o.Item, setField(o.F, field, v)}
	default:
		return false
	}
	c.set(list, VArr{l})
	return true
}

func (c *ActCtx) text() Val { return VStr{[]Val{VTxt{c.item, false}}} }
func (c *ActCtx) char() Val { return VStr{[]Val{VTxt{c.item, true}}} }

func (c *ActCtx) comment() Val {
	return EObj{"Comment", []EField{
		{"Meta", EObj{"Meta", []EField{{"LastPos", EPos{c.item, 'E'}}, {"Pos", EPos{c.item, 'S'}}}}},
		{"Raw", VStr{[]Val{VTxt{c.item, false}}}},
	}}
}

// VLost is an expected value the code has not kept.
type VLost struct{ What string }

// Map implements DomVal.
func (v VLost) Map(m *Mapper) Val { return v }

// Enc implements DomVal.
func (v VLost) Enc(b *Enc) { b.WriteString("lost" + v.What) }

// EAlt matches if one of the values matches.
type EAlt struct{ V []Val }

// Map implements DomVal.
func (v EAlt) Map(m *Mapper) Val { return EAlt{mapVals(v.V, m)} }

// Enc implements DomVal.
func (v EAlt) Enc(b *Enc) { b.WriteString("alt"); b.vals(v.V) }

// EMid matches the comments between two positions.
type EMid struct{ From, To EPos }

// Map implements DomVal.
func (v EMid) Map(m *Mapper) Val {
	a, ok1 := v.From.Map(m).(EPos)
	b, ok2 := v.To.Map(m).(EPos)
	if !ok1 || !ok2 {
		return VLost{"comments"}
	}
	return EMid{a, b}
}

// Enc implements DomVal.
func (v EMid) Enc(b *Enc) { b.WriteString("emid"); v.From.Enc(b); v.To.Enc(b) }

// Act is a register action. It returns false when the value it should change is gone.
type Act func(c *ActCtx) bool

func do(f func(c *ActCtx)) Act {
	return func(c *ActCtx) bool { f(c); return true }
}

type specEdge struct {
	set   CSet // lexemes, or first lexemes of the element
	nt    string
	part  bool
	drops bool // the comments collected before it are not kept
	loose bool
	to    int
	act   Act
}

type cmtEdge struct {
	nl   int8 // 0 any, 1 only on the same line
	to   int
	act  Act
	kind string // property that is broken when the comment is missed
}

type epsEdge struct {
	to  int
	act Act
}

type specNode struct {
	toks   []specEdge
	cmts   []cmtEdge
	eps    []epsEdge
	accept bool
}

// NFA is the automaton of an element.
type NFA struct {
	name   string
	typ    string
	nodes  []specNode
	start  int
	result func(regs []EField) Val
	edges  int
}

// B builds automata.
type B struct {
	s    *TokSem
	lx   *Lex
	perm bool
	body bool
	nfa  *NFA
	// isNT tells which elements have a parser of their own.
	isNT func(name string) bool
	sc   string
	deep int
}

func (b *B) node() int {
	b.nfa.nodes = append(b.nfa.nodes, specNode{})
	return len(b.nfa.nodes) - 1
}

func (b *B) set(names ...string) CSet { return b.lx.set(names...) }

func (b *B) tokTo(q, to int, set CSet, act func(c *ActCtx)) *specEdge {
	e := specEdge{set: set, to: to}
	if act != nil {
		e.act = do(act)
	}
	b.nfa.nodes[q].toks = append(b.nfa.nodes[q].toks, e)
	b.nfa.edges++
	t := b.nfa.nodes[q].toks
	return &t[len(t)-1]
}

func (b *B) tok(q int, set CSet, act func(c *ActCtx)) int {
	to := b.node()
	b.tokTo(q, to, set, act)
	return to
}

func (b *B) lit(q int, name string) int { return b.tok(q, b.set(name), nil) }

func (b *B) epsTo(q, to int, act func(c *ActCtx)) {
	e := epsEdge{to: to}
	if act != nil {
		e.act = do(act)
	}
	b.nfa.nodes[q].eps = append(b.nfa.nodes[q].eps, e)
}

// r names a register of the current scope.
func (b *B) r(name string) string { return b.sc + name }

// lead makes the comments at a node leading comments.
func (b *B) lead(q int) {
	reg := b.r("lead")
	b.nfa.nodes[q].cmts = append(b.nfa.nodes[q].cmts, cmtEdge{nl: 0, to: q, kind: "C07", act: do(func(c *ActCtx) { c.push(reg, c.comment()) })})
}

// inline makes a comment on the same line the value of an action.
func (b *B) inline(q, to int, act Act) {
	b.nfa.nodes[q].cmts = append(b.nfa.nodes[q].cmts, cmtEdge{nl: 1, to: to, kind: "C08", act: act})
	b.epsTo(q, to, nil)
}

// bracket handles the comment behind an opening bracket.
func (b *B) bracket(q int, reg string) int {
	to := b.node()
	n := b.r(reg)
	b.inline(q, to, do(func(c *ActCtx) { c.set(n, c.comment()) }))
	return to
}

// elem adds an element with its leading comments to a list of the scope. It returns the node behind it.
func (b *B) elem(q int, name string, first CSet, list string, withComments bool) int {
	to := b.node()
	lead, reg := b.r("lead"), b.r(list)
	var field string
	_ = field
	if b.isNT(name) {
		act := do(func(c *ActCtx) {
			var fs []EField
			if withComments {
				if l := c.get(lead); l != nil {
					fs = append(fs, EField{"Comments", l})
				}
			}
			c.push(reg, ENT{c.item, fs})
			c.del(lead)
		})
		b.nfa.nodes[q].toks = append(b.nfa.nodes[q].toks, specEdge{set: first, nt: name, to: to, act: act})
		b.nfa.edges++
		return to
	}
	// the element has no parser of its own: its automaton is put here
	saved := b.sc
	b.sc = saved + name + "."
	b.deep++
	if b.deep > 6 {
		panic("the parser of " + name + " cannot be found")
	}
	in := b.node()
	b.guard(q, in, first)
	out, mk := b.frag(name, in)
	sc := b.sc
	b.sc = saved
	b.deep--
	b.epsTo(out, to, func(c *ActCtx) {
		fs := mk(c.regs)
		if withComments {
			if l := c.get(lead); l != nil {
				fs = setField(fs, "Comments", l)
			}
		}
		var rest []EField
		for _, f := range c.regs {
			if len(f.Name) <= len(sc) || f.Name[:len(sc)] != sc {
				rest = append(rest, f)
			}
		}
		c.regs = rest
		c.push(reg, EObj{name, fs})
		c.del(lead)
	})
	return to
}

// guard is an empty edge that is left only by lexemes of the set. The elements
// that are put in place begin with edges of their own, so that the set only
// has to be applied to those.
func (b *B) guard(q, in int, first CSet) {
	b.nfa.nodes[q].eps = append(b.nfa.nodes[q].eps, epsEdge{to: in})
	b.s.guards = append(b.s.guards, guardRec{b.nfa, in, first})
}

type guardRec struct {
	nfa  *NFA
	node int
	set  CSet
}

var ntNames = []string{"Syntax", "Edition", "Import", "Package", "Option", "Message", "Enum", "Service", "Extend", "Oneof", "MapField", "Field",
	"GroupField", "Reserved", "Extensions", "Declaration", "RPC", "EnumField", "OneofField"}

// first is the set of lexemes an element begins with.
func (lx *Lex) first(name string) CSet {
	switch name {
	case "Field", "OneofField":
		return lx.set("IDENT", ".")
	case "GroupField":
		return lx.set("repeated", "required", "optional", "group")
	case "EnumField":
		return lx.idents
	case "MapField":
		return lx.set("map")
	case "Constant":
		s := lx.set("STR", "NUM", "IDENT", "+", "-", "{", "[")
		return s
	case "RPC":
		return lx.set("rpc")
	}
	w := []byte(name)
	w[0] += 'a' - 'A'
	return lx.set(string(w))
}

// fullIdent reads ident {"." ident} into a register.
func (b *B) fullIdent(q int, reg string, firstSet CSet) int {
	reg = b.r(reg)
	add := func(c *ActCtx) { c.cat(reg, c.text()) }
	q = b.tok(q, firstSet, add)
	d := b.tok(q, b.set("."), add)
	b.tokTo(d, q, b.lx.idents, add)
	return q
}

func (b *B) msgType(q int, reg string, firstSet CSet) int {
	out := b.fullIdent(q, reg, firstSet)
	n := b.r(reg)
	add := func(c *ActCtx) { c.cat(n, c.text()) }
	d := b.tok(q, b.set("."), add)
	b.tokTo(d, out, b.lx.idents, add)
	return out
}

// typ reads a field type. The first word must not be in excl.
func (b *B) typ(q int, reg string, excl CSet) int {
	bt := b.set(builtinTypes...)
	out := b.msgType(q, reg, b.lx.idents.minus(bt).minus(excl))
	end := b.node()
	n := b.r(reg)
	b.tokTo(q, end, bt, func(c *ActCtx) { c.cat(n, c.text()) })
	b.epsTo(out, end, nil)
	return end
}

func (b *B) text(q int, set CSet, reg string) int {
	n := b.r(reg)
	return b.tok(q, set, func(c *ActCtx) { c.set(n, c.text()) })
}

func (b *B) pos(name string) func(c *ActCtx) {
	n := b.r(name)
	return func(c *ActCtx) { c.set(n, EPos{c.item, 'S'}) }
}

// optionName reads an option name.
func (b *B) optionName(q int, reg string) int {
	n := b.r(reg)
	add := func(c *ActCtx) { c.cat(n, c.text()) }
	out := b.node()
	b.tokTo(q, out, b.lx.idents, add)
	p := b.tok(q, b.set("("), add)
	in := b.node()
	b.epsTo(p, in, nil)
	if b.perm {
		b.tokTo(p, in, b.set("."), add)
	}
	f := b.fullIdent(in, reg, b.lx.idents)
	b.tokTo(f, out, b.set(")"), add)
	d := b.tok(out, b.set("."), add)
	b.epsTo(d, q, nil)
	return out
}

// constNT reads a constant into a register.
func (b *B) constNT(q int, act func(c *ActCtx, v Val), first CSet) int {
	to := b.node()
	if b.isNT("Constant") {
		b.nfa.nodes[q].toks = append(b.nfa.nodes[q].toks, specEdge{set: first, nt: "Constant", to: to, act: do(func(c *ActCtx) {
			act(c, VStr{[]Val{VNTText{c.item}}})
		})})
		b.nfa.edges++
		return to
	}
	panic("the parser of constants cannot be found")
}

// options reads [ "[" option {"," option} "]" ] into a list of objects.
func (b *B) options(q int, reg, typ string) int {
	out := b.node()
	b.epsTo(q, out, nil)
	n := b.r(reg)
	on, oc := b.r("opt.name"), b.r("opt.const")
	in := b.tok(q, b.set("["), nil)
	e := b.optionName(in, "opt.name")
	e = b.tok(e, b.set("="), nil)
	e = b.constNT(e, func(c *ActCtx, v Val) { c.set(oc, v) }, b.lx.first("Constant"))
	fin := b.node()
	b.epsTo(e, fin, func(c *ActCtx) {
		c.push(n, EObj{typ, []EField{{"Constant", c.get(oc)}, {"OptionName", c.get(on)}}})
		c.del(on)
		c.del(oc)
	})
	b.tokTo(fin, in, b.set(","), nil)
	b.tokTo(fin, out, b.set("]"), nil)
	return out
}

// ranges reads range {"," range}.
func (b *B) ranges(q int, reg string) int {
	n, rb, re := b.r(reg), b.r("range.begin"), b.r("range.end")
	in := b.node()
	b.epsTo(q, in, nil)
	e := b.tok(in, b.set("INT"), func(c *ActCtx) { c.set(rb, c.text()) })
	fin := b.node()
	t := b.tok(e, b.set("to"), nil)
	push := func(c *ActCtx) {
		fs := []EField{{"Begin", c.get(rb)}}
		if v := c.get(re); v != nil {
			fs = append(fs, EField{"End", v})
		}
		c.push(n, EObj{"Range", fs})
		c.del(rb)
		c.del(re)
	}
	b.tokTo(t, fin, b.set("INT", "max"), func(c *ActCtx) { c.set(re, c.text()); push(c) })
	b.epsTo(e, fin, push)
	b.tokTo(fin, in, b.set(","), nil)
	return fin
}

// blockEnd accepts the optional ';' behind a block.
func (b *B) blockEnd(q int) int {
	out := b.node()
	b.epsTo(q, out, nil)
	if b.perm {
		b.tokTo(q, out, b.set(";"), b.pos("LastPos"))
	}
	return out
}

func (b *B) meta(regs []EField) Val {
	c := &ActCtx{regs: regs}
	var fs []EField
	if v := c.get(b.r("LastPos")); v != nil {
		fs = append(fs, EField{"LastPos", v})
	}
	if v := c.get(b.r("Pos")); v != nil {
		fs = append(fs, EField{"Pos", v})
	}
	return EObj{"Meta", fs}
}

// mk makes the fields of an element of registers with the same names.
func (b *B) mk(withMeta bool, names ...string) func(regs []EField) []EField {
	sc := b.sc
	bb := &B{sc: sc}
	return func(regs []EField) []EField {
		c := &ActCtx{regs: regs}
		var fs []EField
		for _, n := range names {
			if v := c.get(sc + n); v != nil {
				fs = setField(fs, n, v)
			}
		}
		if withMeta {
			fs = setField(fs, "Meta", bb.meta(regs))
		}
		return fs
	}
}

// setInline sets the inline comment of the last element of a list.
func (b *B) setInline(list string) Act {
	n := b.r(list)
	return func(c *ActCtx) bool { return c.setLast(n, "InlineComment", c.comment()) }
}

// emptyStatement adds the empty statement and, if requested, the comments before it.
func (b *B) emptyStatement(q int, list string) int {
	n, lead := b.r(list), b.r("lead")
	keep := b.body
	to := b.node()
	e := b.tokTo(q, to, b.set(";"), func(c *ActCtx) {
		if keep {
			c.push(n, c.list(lead)...)
		}
		c.del(lead)
		c.push(n, EObj{"EmptyStatement", nil})
	})
	e.drops = !keep
	return to
}

// closing reads the token that ends a body.
func (b *B) closing(q int, set CSet, list string, act func(c *ActCtx)) int {
	n, lead := b.r(list), b.r("lead")
	keep := b.body && list != ""
	to := b.node()
	e := b.tokTo(q, to, set, func(c *ActCtx) {
		if keep {
			c.push(n, c.list(lead)...)
		}
		c.del(lead)
		if act != nil {
			act(c)
		}
	})
	e.drops = !keep
	return to
}

func lastPos(b *B) func(c *ActCtx) { return b.pos("LastPos") }

// messageBody reads a message body into the list.
func (b *B) messageBody(q int, list string) int {
	q = b.tok(q, b.set("{"), nil)
	h := b.bracket(q, "InlineCommentBehindLeftCurly")
	b.lead(h)
	kw := b.set("enum", "message", "option", "oneof", "map", "extend", "reserved", "extensions")
	after := func(to int) { b.inline(to, h, b.setInline(list)) }
	for _, n := range []string{"Enum", "Message", "Option", "Oneof", "MapField", "Extend", "Reserved", "Extensions"} {
		after(b.elem(h, n, b.lx.first(n), list, true))
	}
	after(b.elem(h, "GroupField", b.lx.first("GroupField"), list, true))
	after(b.elem(h, "Field", b.lx.first("Field").minus(kw), list, true))
	after(b.emptyStatement(h, list))
	out := b.closing(h, b.set("}"), list, lastPos(b))
	return b.blockEnd(out)
}

// frag builds the automaton of an element.
func (b *B) frag(name string, q int) (int, func(regs []EField) []EField) {
	start := func(word string) int { return b.tok(q, b.set(word), b.pos("Pos")) }
	semi := func(q int) int { return b.tok(q, b.set(";"), b.pos("LastPos")) }
	labels := []string{"repeated", "required", "optional"}
	flags := map[string]string{"repeated": "IsRepeated", "required": "IsRequired", "optional": "IsOptional"}
	switch name {
	case "Syntax", "Edition":
		word, val, quote := "syntax", "ProtobufVersion", "ProtobufVersionQuote"
		set := b.set("proto2", "proto3")
		if name == "Edition" {
			word, val, quote = "edition", "Edition", "EditionQuote"
			set = b.set("INT")
		}
		e := b.tok(start(word), b.set("="), nil)
		out := b.node()
		rv, rq := b.r(val), b.r(quote)
		for _, qc := range []string{`"`, `'`} {
			qs := b.set(qc+"STR"+qc, qc+"BADSTR")
			x := b.node()
			b.tokTo(e, x, qs, func(c *ActCtx) { c.cat(rq, c.char()) }).part = true
			x = b.tok(x, set, func(c *ActCtx) { c.set(rv, c.text()); c.cat(rq, c.text()) })
			b.tokTo(x, out, qs, func(c *ActCtx) { c.cat(rq, c.char()) }).part = true
		}
		return semi(out), b.mk(true, val, quote)
	case "Import":
		e := start("import")
		in := b.node()
		b.epsTo(e, in, nil)
		reg := b.r("Modifier")
		for _, m := range []string{"public", "weak"} {
			v := b.s.constant("ImportModifier" + string(m[0]-'a'+'A') + m[1:])
			b.tokTo(e, in, b.set(m), func(c *ActCtx) { c.set(reg, v) })
		}
		return semi(b.text(in, b.set("STR"), "Location")), b.mk(true, "Modifier", "Location")
	case "Package":
		return semi(b.fullIdent(start("package"), "Name", b.lx.idents)), b.mk(true, "Name")
	case "Option":
		e := b.optionName(start("option"), "OptionName")
		e = b.tok(e, b.set("="), nil)
		reg := b.r("Constant")
		e = b.constNT(e, func(c *ActCtx, v Val) { c.set(reg, v) }, b.lx.first("Constant"))
		return semi(e), b.mk(true, "OptionName", "Constant")
	case "Message":
		e := b.text(start("message"), b.lx.idents, "MessageName")
		return b.messageBody(e, "MessageBody"), b.mk(true, "MessageName", "MessageBody", "InlineCommentBehindLeftCurly")
	case "GroupField":
		in := b.node()
		for _, l := range labels {
			f, p := b.r(flags[l]), b.pos("Pos")
			b.tokTo(q, in, b.set(l), func(c *ActCtx) { c.set(f, VBool(true)); p(c) })
		}
		e := b.node()
		b.tokTo(q, e, b.set("group"), b.pos("Pos"))
		b.tokTo(in, e, b.set("group"), nil)
		e = b.text(e, b.set("UPPER"), "GroupName")
		e = b.tok(e, b.set("="), nil)
		e = b.text(e, b.set("INT"), "FieldNumber")
		return b.messageBody(e, "MessageBody"), b.mk(true, "IsRepeated", "IsRequired", "IsOptional", "GroupName", "FieldNumber", "MessageBody", "InlineCommentBehindLeftCurly")
	case "Enum":
		e := b.text(start("enum"), b.lx.idents, "EnumName")
		e = b.tok(e, b.set("{"), nil)
		h := b.bracket(e, "InlineCommentBehindLeftCurly")
		b.lead(h)
		list := "EnumBody"
		after := func(to int) { b.inline(to, h, b.setInline(list)) }
		after(b.elem(h, "Option", b.set("option"), list, true))
		after(b.elem(h, "Reserved", b.set("reserved"), list, true))
		after(b.elem(h, "EnumField", b.lx.idents.minus(b.set("option", "reserved")), list, true))
		after(b.emptyStatement(h, list))
		return b.blockEnd(b.closing(h, b.set("}"), list, lastPos(b))), b.mk(true, "EnumName", "EnumBody", "InlineCommentBehindLeftCurly")
	case "Service":
		e := b.text(start("service"), b.lx.idents, "ServiceName")
		e = b.tok(e, b.set("{"), nil)
		h := b.bracket(e, "InlineCommentBehindLeftCurly")
		b.lead(h)
		list := "ServiceBody"
		after := func(to int) { b.inline(to, h, b.setInline(list)) }
		after(b.elem(h, "Option", b.set("option"), list, true))
		after(b.elem(h, "RPC", b.set("rpc"), list, true))
		after(b.emptyStatement(h, list))
		return b.blockEnd(b.closing(h, b.set("}"), list, lastPos(b))), b.mk(true, "ServiceName", "ServiceBody", "InlineCommentBehindLeftCurly")
	case "Extend":
		e := b.msgType(start("extend"), "MessageType", b.lx.idents)
		e = b.tok(e, b.set("{"), nil)
		h := b.bracket(e, "InlineCommentBehindLeftCurly")
		b.lead(h)
		list := "ExtendBody"
		after := func(to int) { b.inline(to, h, b.setInline(list)) }
		after(b.elem(h, "Field", b.lx.first("Field"), list, true))
		after(b.emptyStatement(h, list))
		return b.blockEnd(b.closing(h, b.set("}"), list, lastPos(b))), b.mk(true, "MessageType", "ExtendBody", "InlineCommentBehindLeftCurly")
	case "Oneof":
		e := b.text(start("oneof"), b.lx.idents, "OneofName")
		e = b.tok(e, b.set("{"), nil)
		h := b.bracket(e, "InlineCommentBehindLeftCurly")
		b.lead(h)
		to := b.elem(h, "Option", b.set("option"), "Options", true)
		b.inline(to, h, b.setInline("Options"))
		to = b.elem(h, "OneofField", b.set("IDENT", ".").minus(b.set("option")), "OneofFields", true)
		b.inline(to, h, b.setInline("OneofFields"))
		lead := b.r("lead")
		b.tokTo(h, h, b.set(";"), func(c *ActCtx) { c.del(lead) }).drops = true
		return b.blockEnd(b.closing(h, b.set("}"), "", lastPos(b))), b.mk(true, "OneofName", "OneofFields", "Options", "InlineCommentBehindLeftCurly")
	case "Field":
		e := b.node()
		b.epsTo(q, e, nil)
		excl := b.set(labels...)
		out := b.node()
		for _, l := range labels {
			f, p := b.r(flags[l]), b.pos("Pos")
			in := b.node()
			b.tokTo(q, in, b.set(l), func(c *ActCtx) { c.set(f, VBool(true)); p(c) })
			b.epsTo(b.typ(in, "Type", CSet{}), out, nil)
		}
		b.epsTo(b.startPos(func() int { return b.typ(e, "Type", excl) }, e), out, nil)
		out = b.text(out, b.lx.idents, "FieldName")
		out = b.tok(out, b.set("="), nil)
		out = b.text(out, b.set("INT"), "FieldNumber")
		out = b.options(out, "FieldOptions", "FieldOption")
		return semi(out), b.mk(true, "IsRepeated", "IsRequired", "IsOptional", "Type", "FieldName", "FieldNumber", "FieldOptions")
	case "OneofField":
		out := b.startPos(func() int { return b.typ(q, "Type", CSet{}) }, q)
		out = b.text(out, b.lx.idents, "FieldName")
		out = b.tok(out, b.set("="), nil)
		out = b.text(out, b.set("INT"), "FieldNumber")
		out = b.options(out, "FieldOptions", "FieldOption")
		return semi(out), b.mk(true, "Type", "FieldName", "FieldNumber", "FieldOptions")
	case "MapField":
		e := b.tok(start("map"), b.set("<"), nil)
		e = b.text(e, b.set(keyTypes...), "KeyType")
		e = b.tok(e, b.set(","), nil)
		e = b.typ(e, "Type", CSet{})
		e = b.tok(e, b.set(">"), nil)
		e = b.text(e, b.lx.idents, "MapName")
		e = b.tok(e, b.set("="), nil)
		e = b.text(e, b.set("INT"), "FieldNumber")
		e = b.options(e, "FieldOptions", "FieldOption")
		return semi(e), b.mk(true, "KeyType", "Type", "MapName", "FieldNumber", "FieldOptions")
	case "EnumField":
		rn := b.r("Number")
		add := func(c *ActCtx) { c.cat(rn, c.text()) }
		p := b.pos("Pos")
		id := b.r("Ident")
		e := b.tok(q, b.lx.idents, func(c *ActCtx) { p(c); c.set(id, c.text()) })
		e = b.tok(e, b.set("="), nil)
		in := b.node()
		b.epsTo(e, in, nil)
		b.tokTo(e, in, b.set("-"), add)
		e = b.tok(in, b.set("INT"), add)
		e = b.options(e, "EnumValueOptions", "EnumValueOption")
		return semi(e), b.mk(true, "Ident", "Number", "EnumValueOptions")
	case "Reserved":
		e := start("reserved")
		out := b.node()
		b.epsTo(b.ranges(e, "Ranges"), out, nil)
		reg := b.r("FieldNames")
		fs := b.set("STR", "IDENT")
		add := func(c *ActCtx) { c.push(reg, c.text()) }
		f := b.tok(e, fs, add)
		b.tokTo(f, f, fs, add)
		cm := b.tok(f, b.set(","), nil)
		b.tokTo(cm, f, fs, add)
		b.epsTo(f, out, nil)
		return semi(out), b.mk(true, "Ranges", "FieldNames")
	case "Extensions":
		e := b.ranges(start("extensions"), "Ranges")
		out := b.node()
		b.epsTo(e, out, nil)
		in := b.tok(e, b.set("["), nil)
		h := b.bracket(in, "InlineCommentBehindLeftSquare")
		b.lead(h)
		d := b.elem(h, "Declaration", b.set("declaration"), "Declarations", true)
		b.inline(b.tok(d, b.set(","), nil), h, b.setInline("Declarations"))
		b.inline(b.tok(d, b.set("]"), nil), out, b.setInline("Declarations"))
		return semi(out), b.mk(true, "Ranges", "Declarations", "InlineCommentBehindLeftSquare")
	case "Declaration":
		e := b.tok(start("declaration"), b.set("="), nil)
		e = b.tok(e, b.set("{"), nil)
		h := b.bracket(e, "InlineCommentBehindLeftCurly")
		k := b.node()
		b.epsTo(h, k, nil)
		b.tokTo(h, k, b.set(","), nil)
		for _, f := range []struct{ word, reg, set string }{{"number", "Number", "INT"}, {"full_name", "FullName", "STR"}, {"type", "Type", "STR"}} {
			reg := b.r(f.reg)
			x := b.tok(b.tok(k, b.set(f.word), nil), b.set(":"), nil)
			b.tokTo(x, h, b.set(f.set), func(c *ActCtx) { c.set(reg, c.text()) })
		}
		for _, f := range []struct{ word, reg string }{{"repeated", "Repeated"}, {"reserved", "Reserved"}} {
			reg := b.r(f.reg)
			x := b.tok(b.tok(k, b.set(f.word), nil), b.set(":"), nil)
			b.tokTo(x, h, b.set("true"), func(c *ActCtx) { c.set(reg, VBool(true)) })
			b.tokTo(x, h, b.set("false"), func(c *ActCtx) { c.del(reg) })
		}
		return b.tok(h, b.set("}"), b.pos("LastPos")), b.mk(true, "Number", "FullName", "Type", "Repeated", "Reserved", "InlineCommentBehindLeftCurly")
	case "RPC":
		e := b.text(start("rpc"), b.lx.idents, "RPCName")
		side := func(q int, typ string) int {
			p, l := b.r(typ+".Pos"), b.r(typ+".LastPos")
			st, mt, reg := b.r(typ+".IsStream"), b.r(typ+".MessageType"), b.r(typ)
			e := b.tok(q, b.set("("), func(c *ActCtx) { c.set(p, EPos{c.item, 'S'}) })
			x := b.tok(e, b.set("stream"), func(c *ActCtx) { c.set(st, VBool(true)) })
			out := b.node()
			b.epsTo(b.msgType(x, typ+".MessageType", b.lx.idents), out, nil)
			b.epsTo(b.msgType(e, typ+".MessageType", b.lx.idents.minus(b.set("stream"))), out, nil)
			return b.tok(out, b.set(")"), func(c *ActCtx) {
				c.set(l, EPos{c.item, 'S'})
				fs := []EField{{"MessageType", c.get(mt)}, {"Meta", EObj{"Meta", []EField{{"LastPos", c.get(l)}, {"Pos", c.get(p)}}}}}
				if v := c.get(st); v != nil {
					fs = setField(fs, "IsStream", v)
				}
				for _, n := range []string{p, l, st, mt} {
					c.del(n)
				}
				c.set(reg, EObj{typ, fs})
			})
		}
		e = side(e, "RPCRequest")
		e = b.tok(e, b.set("returns"), nil)
		e = side(e, "RPCResponse")
		rp, rl, em := b.r("Pos"), b.r("LastPos"), b.r("EmbeddedComments")
		embed := func(c *ActCtx) {
			if p, ok := c.get(rp).(EPos); ok {
				c.set(em, EMid{p, EPos{c.item, 'S'}})
			}
		}
		out := b.node()
		b.tokTo(e, out, b.set(";"), func(c *ActCtx) { embed(c); c.set(rl, EPos{c.item, 'S'}) })
		h := b.bracket(b.tok(e, b.set("{"), embed), "InlineCommentBehindLeftCurly")
		b.epsTo(b.elem(h, "Option", b.set("option"), "Options", false), h, nil)
		b.tokTo(h, h, b.set(";"), nil)
		b.epsTo(b.blockEnd(b.tok(h, b.set("}"), b.pos("LastPos"))), out, nil)
		return out, b.mk(true, "RPCName", "RPCRequest", "RPCResponse", "Options", "InlineCommentBehindLeftCurly", "EmbeddedComments")
	case "Constant":
		return b.constant(q), nil
	case "Proto":
		return b.proto(q), b.mk(false, "Syntax", "Edition", "ProtoBody", "Meta")
	}
	panic("no specification of " + name)
}

// startPos records the position of the first lexeme read from q by the fragment.
func (b *B) startPos(f func() int, q int) int {
	n := len(b.nfa.nodes[q].toks)
	out := f()
	p := b.pos("Pos")
	ts := b.nfa.nodes[q].toks
	for i := n; i < len(ts); i++ {
		old := ts[i].act
		ts[i].act = func(c *ActCtx) bool {
			p(c)
			return old == nil || old(c)
		}
	}
	return out
}

// constant builds the automaton of constants. The text is in the register T.
func (b *B) constant(q int) int {
	out := b.node()
	reg := b.r("T")
	add := func(c *ActCtx) { c.cat(reg, c.text()) }
	special := b.set("true", "false", "inf", "nan")
	b.tokTo(q, out, special, add)
	b.tokTo(q, out, b.set("NUM"), add)
	sign := b.tok(q, b.set("+", "-"), add)
	b.tokTo(sign, out, b.set("NUM", "inf", "nan"), add)
	b.epsTo(b.fullIdent(q, "T", b.lx.idents.minus(special)), out, nil)
	if !b.perm {
		b.tokTo(q, out, b.set("STR"), add)
		return out
	}
	// adjacent string literals
	for _, qc := range []string{`"`, `'`} {
		qc := qc
		other := `'`
		if qc == `'` {
			other = `"`
		}
		in, one := b.r("S"+qc), b.r("one")
		str := b.node()
		b.tokTo(q, str, b.set(qc+"STR"+qc), func(c *ActCtx) {
			c.set(one, c.text())
			c.cat(in, VInner{c.item})
		})
		more := b.node()
		inner := func(c *ActCtx) { c.del(one); c.cat(in, VInner{c.item}) }
		req := func(c *ActCtx) { c.del(one); c.cat(in, VReq{qc, c.item}) }
		for _, n := range []int{str, more} {
			b.tokTo(n, more, b.set(qc+"STR"+qc), inner)
			b.tokTo(n, more, b.set(other+"STR"+other), req)
		}
		end := func(c *ActCtx) {
			v := c.get(in)
			var whole Val = VLost{"constant"}
			if s, ok := v.(VStr); ok {
				whole = strOf(VConstStr(qc), s, VConstStr(qc))
			}
			if o := c.get(one); o != nil {
				whole = EAlt{[]Val{whole, o}}
			}
			c.del(in)
			c.del(one)
			c.set(reg, whole)
		}
		b.epsTo(str, out, end)
		b.epsTo(more, out, end)
	}
	// aggregates
	br := b.tok(q, b.set("{"), add)
	b.tokTo(br, out, b.set("}"), add)
	a := b.node()
	b.epsTo(br, a, nil)
	sub := func(c *ActCtx, v Val) { c.cat(reg, v) }
	ident := b.tok(a, b.lx.idents, add)
	curly := b.set("{")
	v := b.constNT(ident, sub, curly)
	col := b.tok(ident, b.set(":"), add)
	b.epsTo(b.constNT(col, sub, b.lx.first("Constant").minus(curly)), v, nil)
	vs := b.constNT(col, sub, curly)
	b.tokTo(vs, v, b.set(";"), add) // further separators may follow this one
	w := b.tok(v, b.set(",", ";"), add)
	b.tokTo(vs, w, b.set(","), add)
	b.tokTo(w, out, b.set("}"), add)
	b.epsTo(w, a, nil)
	for _, n := range []int{v, vs} {
		b.tokTo(n, out, b.set("}"), add)
		b.epsTo(n, a, func(c *ActCtx) { c.cat(reg, VConstStr("\n")) })
	}
	// lists
	sq := b.tok(q, b.set("["), nil)
	b.tokTo(sq, out, b.set("]"), func(c *ActCtx) { c.set(reg, strOf(VConstStr("[]"))) })
	lst, str := b.r("L"), b.r("J")
	el := b.constNT(sq, func(c *ActCtx, v Val) {
		c.push(lst, v)
		if c.get(str) != nil {
			c.cat(str, VConstStr(","))
		}
		c.cat(str, v)
	}, b.lx.first("Constant"))
	b.tokTo(el, sq2(b, el, sq), b.set(","), nil)
	b.tokTo(el, out, b.set("]"), func(c *ActCtx) {
		var alts []Val
		if _, lost := c.get(lst).(VLost); !lost {
			alts = append(alts, strOf(VConstStr("["), joinVals(c.list(lst), ","), VConstStr("]")))
		}
		if s, ok := c.get(str).(VStr); ok {
			alts = append(alts, strOf(VConstStr("["), s, VConstStr("]")))
		}
		c.del(lst)
		c.del(str)
		if len(alts) == 0 {
			c.set(reg, VLost{"constant"})
			return
		}
		c.set(reg, EAlt{alts})
	})
	return out
}

// sq2 is the node behind a comma of a list constant.
func sq2(b *B, el, sq int) int {
	n := b.node()
	ts := b.nfa.nodes[sq].toks
	for _, t := range ts {
		if t.nt != "" {
			b.nfa.nodes[n].toks = append(b.nfa.nodes[n].toks, t)
		}
	}
	return n
}

// proto builds the automaton of a whole source.
func (b *B) proto(q int) int {
	h0 := b.node()
	b.epsTo(q, h0, nil)
	e := b.tokTo(q, h0, b.set("\uFEFF"), nil)
	e.loose = true
	// syntax and edition
	lead := b.r("lead")
	single := func(h int, name string) int {
		b.lead(h)
		next := b.node()
		after := b.node()
		reg := b.r(name)
		if !b.isNT(name) {
			panic("the parser of " + name + " cannot be found")
		}
		b.nfa.nodes[h].toks = append(b.nfa.nodes[h].toks, specEdge{set: b.lx.first(name), nt: name, to: after, act: do(func(c *ActCtx) {
			var fs []EField
			if l := c.get(lead); l != nil {
				fs = append(fs, EField{"Comments", l})
			}
			c.set(reg, ENT{c.item, fs})
			c.del(lead)
		})})
		b.nfa.edges++
		b.inline(after, next, func(c *ActCtx) bool {
			o, ok := c.get(reg).(ENT)
			if !ok {
				return false
			}
			c.set(reg, ENT{o.Item, setField(o.F, "InlineComment", c.comment())})
			return true
		})
		return next
	}
	h1 := single(h0, "Syntax")
	b.epsTo(h0, h1, nil)
	h2 := single(h1, "Edition")
	b.epsTo(h1, h2, nil)
	b.lead(h2)
	list := "ProtoBody"
	after := func(to int) { b.inline(to, h2, b.setInline(list)) }
	for _, n := range []string{"Import", "Package", "Option", "Message", "Enum", "Service", "Extend"} {
		after(b.elem(h2, n, b.lx.first(n), list, true))
	}
	after(b.emptyStatement(h2, list))
	m := b.r("Meta")
	return b.closing(h2, b.set("EOF"), list, func(c *ActCtx) {
		c.set(m, EObj{"ProtoMeta", []EField{{"Filename", filenameVal}}})
	})
}

var filenameVal = VStr{[]Val{VOpaque{"filename"}}}

// constant is the value of a constant of the parser package.
func (s *TokSem) constant(name string) Val {
	c, ok := s.p.pkgs["parser"].Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return VLost{"constant " + name}
	}
	i, _ := constant.Int64Val(constant.ToInt(c.Val()))
	return VInt(i)
}

// buildNFA makes the automaton of an element.
func (s *TokSem) buildNFA(name string) (n *NFA, err error) {
	defer func() {
		if r := recover(); r != nil {
			n, err = nil, fmt.Errorf("%v", r)
		}
	}()
	n = &NFA{name: name, typ: name}
	b := &B{s: s, lx: s.lx, perm: s.perm, body: s.body, nfa: n, isNT: func(x string) bool { return s.ntByName[x] != nil }}
	n.start = b.node()
	out, mk := b.frag(name, n.start)
	n.nodes[out].accept = true
	n.result = func(regs []EField) Val {
		if name == "Constant" {
			c := &ActCtx{regs: regs}
			if v := c.get("T"); v != nil {
				return v
			}
			return VLost{"constant"}
		}
		return EObj{name, mk(regs)}
	}
	// restrict the elements that were put in place
	for _, g := range s.guards {
		if g.nfa == n {
			restrict(n, g.node, g.set, map[int]bool{})
		}
	}
	return n, nil
}

func restrict(n *NFA, q int, set CSet, seen map[int]bool) {
	if seen[q] {
		return
	}
	seen[q] = true
	for i := range n.nodes[q].toks {
		n.nodes[q].toks[i].set = n.nodes[q].toks[i].set.and(set)
	}
	for _, e := range n.nodes[q].eps {
		restrict(n, e.to, set, seen)
	}
}

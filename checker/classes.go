package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CSet is a set of lexeme classes.
type CSet [4]uint64

func (s CSet) has(i int) bool    { return s[i>>6]>>(uint(i)&63)&1 != 0 }
func (s CSet) with(i int) CSet   { s[i>>6] |= 1 << (uint(i) & 63); return s }
func (s CSet) empty() bool       { return s == CSet{} }
func (s CSet) and(t CSet) CSet   { return CSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]} }
func (s CSet) or(t CSet) CSet    { return CSet{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s CSet) minus(t CSet) CSet { return CSet{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]} }
func (s CSet) subset(t CSet) bool {
	return s.minus(t).empty()
}

// ClassKind tells how a lexeme is read.
type ClassKind int

// Kinds of classes.
const (
	kWord    ClassKind = iota // a particular identifier
	kIdent                    // any other identifier
	kInt                      // intLit
	kFloat                    // floatLit that begins with a digit
	kNumBad                   // malformed number that begins with a digit
	kDot                      // "." not followed by a digit
	kDotNum                   // "." digits: floatLit
	kDotBad                   // "." digits with a malformed exponent
	kStr                      // string literal
	kStrBad                   // unterminated or malformed string literal
	kPunct                    // a punctuation character
	kOther                    // any other character
	kSlash                    // "/" that does not begin a complete comment
	kEOF                      // end of the source
	kReadErr                  // the reader fails
)

// Class is an equivalence class of lexemes.
type Class struct {
	name   string
	kind   ClassKind
	text   string // the text, if it is the same for all lexemes of the class
	fixed  bool
	lo, hi rune // range of the first character
	tok    string
}

// Lex holds the classes and the token tables: the lexical contract of the scanner.
type Lex struct {
	p       *Program
	cls     []Class
	byName  map[string]int
	all     CSet
	idents  CSet
	words   map[string]int
	tokens  map[string]int64 // exported constants of the scanner package
	modes   map[string]int64
	missing []string
}

var keywords = map[string]string{
	"syntax": "TSYNTAX", "edition": "TEDITION", "service": "TSERVICE", "rpc": "TRPC", "returns": "TRETURNS",
	"message": "TMESSAGE", "extend": "TEXTEND", "import": "TIMPORT", "package": "TPACKAGE", "option": "TOPTION",
	"repeated": "TREPEATED", "required": "TREQUIRED", "optional": "TOPTIONAL", "weak": "TWEAK", "public": "TPUBLIC",
	"oneof": "TONEOF", "map": "TMAP", "reserved": "TRESERVED", "extensions": "TEXTENSIONS", "number": "TNUMBER",
	"full_name": "TFULLNAME", "type": "TTYPE", "declaration": "TDECLARATION", "enum": "TENUM", "stream": "TSTREAM", "group": "TGROUP",
}

var puncts = map[string]string{
	";": "TSEMICOLON", ":": "TCOLON", "=": "TEQUALS", "(": "TLEFTPAREN", ")": "TRIGHTPAREN", "{": "TLEFTCURLY", "}": "TRIGHTCURLY",
	"[": "TLEFTSQUARE", "]": "TRIGHTSQUARE", "<": "TLESS", ">": "TGREATER", ",": "TCOMMA", "-": "TMINUS", "\uFEFF": "TBOM", "+": "TILLEGAL",
}

var builtinTypes = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var keyTypes = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

var tokenNames = []string{"TILLEGAL", "TEOF", "TIDENT", "TINTLIT", "TFLOATLIT", "TBOOLLIT", "TSTRLIT", "TCOMMENT", "TQUOTE", "TDOT"}
var modeNames = []string{"ScanIdent", "ScanNumberLit", "ScanStrLit", "ScanBoolLit", "ScanKeyword", "ScanComment", "ScanLit"}

func identLike(s string) bool {
	for i, r := range s {
		switch {
		case r == '_', 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z':
		case '0' <= r && r <= '9' && i > 0:
		default:
			return false
		}
	}
	return s != ""
}

func newLex(p *Program) *Lex {
	lx := &Lex{p: p, byName: map[string]int{}, words: map[string]int{}, tokens: map[string]int64{}, modes: map[string]int64{}}
	scope := p.pkgs["lexer/scanner"].Types.Scope()
	konst := func(n string) (int64, bool) {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			lx.missing = append(lx.missing, "scanner."+n)
			return 0, false
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Val()))
		return i, true
	}
	need := append([]string(nil), tokenNames...)
	for _, t := range keywords {
		need = append(need, t)
	}
	for _, t := range puncts {
		need = append(need, t)
	}
	sort.Strings(need)
	for _, t := range need {
		if _, done := lx.tokens[t]; done {
			continue
		}
		if v, ok := konst(t); ok {
			lx.tokens[t] = v
		}
	}
	for _, m := range modeNames {
		if v, ok := konst(m); ok {
			lx.modes[m] = v
		}
	}
	words := map[string]bool{"true": true, "false": true, "inf": true, "nan": true, "to": true, "max": true, "proto2": true, "proto3": true}
	for w := range keywords {
		words[w] = true
	}
	for _, w := range builtinTypes {
		words[w] = true
	}
	for _, fn := range p.fns {
		rel := ""
		if fn.Pkg != nil {
			rel = strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath), "/")
		} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
			rel = strings.TrimPrefix(strings.TrimPrefix(fn.Parent().Pkg.Pkg.Path(), modPath), "/")
		}
		if rel != "lexer" && rel != "parser" {
			continue
		}
		// only the words that are compared or looked up matter
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if isCmp(in.Op) {
						for _, o := range []ssa.Value{in.X, in.Y} {
							addWord(words, o)
						}
					}
				case *ssa.MapUpdate:
					addWord(words, in.Key)
				case *ssa.Call:
					for _, a := range in.Call.Args {
						addWord(words, a)
					}
				}
			}
		}
		if init := fn.Pkg; init != nil {
			if f := init.Func("init"); f != nil {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok {
							addWord(words, mu.Key)
						}
					}
				}
			}
		}
	}
	if foldsCase(p, "lexer", "parser") {
		for _, w := range sortedKeys(words) {
			if len(words) > 190 {
				break
			}
			words[strings.ToUpper(w)] = true
			words[strings.ToUpper(w[:1])+w[1:]] = true
		}
	}
	var ws []string
	for w := range words {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	add := func(c Class) int {
		i := len(lx.cls)
		lx.cls = append(lx.cls, c)
		lx.byName[c.name] = i
		lx.all = lx.all.with(i)
		return i
	}
	for _, w := range ws {
		if len(lx.cls) > 200 {
			break
		}
		r := rune(w[0])
		i := add(Class{name: w, kind: kWord, text: w, fixed: true, lo: r, hi: r})
		lx.words[w] = i
		lx.idents = lx.idents.with(i)
	}
	lx.idents = lx.idents.with(add(Class{name: "Ident", kind: kIdent, lo: 'A', hi: 'Z'}))
	lx.idents = lx.idents.with(add(Class{name: "ident", kind: kIdent, lo: 'a', hi: 'z'}))
	lx.idents = lx.idents.with(add(Class{name: "_ident", kind: kIdent, lo: '_', hi: '_'}))
	add(Class{name: "INT", kind: kInt, lo: '0', hi: '9'})
	add(Class{name: "FLOAT", kind: kFloat, lo: '0', hi: '9'})
	add(Class{name: "BADNUM", kind: kNumBad, lo: '0', hi: '9'})
	add(Class{name: ".", kind: kDot, text: ".", fixed: true, lo: '.', hi: '.'})
	add(Class{name: ".FLOAT", kind: kDotNum, lo: '.', hi: '.'})
	add(Class{name: ".BADNUM", kind: kDotBad, lo: '.', hi: '.'})
	add(Class{name: `"STR"`, kind: kStr, lo: '"', hi: '"'})
	add(Class{name: `'STR'`, kind: kStr, lo: '\'', hi: '\''})
	add(Class{name: `"BADSTR`, kind: kStrBad, lo: '"', hi: '"'})
	add(Class{name: `'BADSTR`, kind: kStrBad, lo: '\'', hi: '\''})
	var ps []string
	for c := range puncts {
		ps = append(ps, c)
	}
	sort.Strings(ps)
	for _, c := range ps {
		r := []rune(c)[0]
		add(Class{name: c, kind: kPunct, text: c, fixed: true, lo: r, hi: r, tok: puncts[c]})
	}
	add(Class{name: "OTHER", kind: kOther, lo: 0, hi: 0x10FFFF})
	add(Class{name: "BAD/", kind: kSlash, lo: '/', hi: '/'})
	add(Class{name: "EOF", kind: kEOF, text: "", fixed: true, lo: -1, hi: -1})
	add(Class{name: "READERR", kind: kReadErr, text: "", fixed: true, lo: -1, hi: -1})
	return lx
}

// foldsCase tells whether a package looks at texts without regard to the case, so
// that the other spellings of a word matter, too.
func foldsCase(p *Program, rels ...string) bool {
	for _, fn := range p.fns {
		pkg := fn.Pkg
		if pkg == nil && fn.Parent() != nil {
			pkg = fn.Parent().Pkg
		}
		in := false
		for _, r := range rels {
			in = in || pkg != nil && pkg == p.spkgs[r]
		}
		if !in {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				if _, ok := caseFuncs[c.Common().StaticCallee().RelString(nil)]; ok || c.Common().StaticCallee().RelString(nil) == "strings.EqualFold" {
					return true
				}
			}
		}
	}
	return false
}

var caseFuncs = map[string]func(string) string{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title,
	"strings.TrimSpace": strings.TrimSpace,
}

func addWord(words map[string]bool, v ssa.Value) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return
	}
	s := constant.StringVal(c.Value)
	if identLike(s) && len(s) < 24 {
		words[s] = true
	}
}

// set makes a class set of names; "ident" groups are written "IDENT".
func (lx *Lex) set(names ...string) CSet {
	var s CSet
	for _, n := range names {
		switch n {
		case "IDENT":
			s = s.or(lx.idents)
		case "STR":
			s = s.or(lx.set(`"STR"`, `'STR'`))
		case "NUM":
			s = s.or(lx.set("INT", "FLOAT", ".FLOAT"))
		case "UPPER":
			for i, c := range lx.cls {
				if lx.idents.has(i) && 'A' <= c.lo && c.hi <= 'Z' {
					s = s.with(i)
				}
			}
		default:
			i, ok := lx.byName[n]
			if !ok {
				panic("no class " + n)
			}
			s = s.with(i)
		}
	}
	return s
}

func (lx *Lex) describe(s CSet) string {
	if s == lx.all {
		return "ANY"
	}
	var r []string
	rest := s
	if lx.idents.subset(s) {
		r = append(r, "IDENT")
		rest = rest.minus(lx.idents)
	}
	for i := range lx.cls {
		if rest.has(i) {
			r = append(r, lx.cls[i].name)
		}
	}
	if len(r) > 8 {
		r = append(r[:8], "...")
	}
	return strings.Join(r, "|")
}

// Reading is how a class is read under a mode.
type Reading struct {
	tok     int64
	partial bool // only the first character is read
	err     bool
}

// read is the lexical contract: what Scan reports for a class under a mode.
func (lx *Lex) read(c int, mode int64) Reading {
	cl := &lx.cls[c]
	T := lx.tokens
	has := func(m string) bool { return mode&lx.modes[m] != 0 }
	switch cl.kind {
	case kWord, kIdent:
		switch {
		case has("ScanBoolLit") && (cl.text == "true" || cl.text == "false"):
			return Reading{tok: T["TBOOLLIT"]}
		case has("ScanNumberLit") && (cl.text == "inf" || cl.text == "nan"):
			return Reading{tok: T["TFLOATLIT"]}
		case has("ScanKeyword") && keywords[cl.text] != "":
			return Reading{tok: T[keywords[cl.text]]}
		}
		return Reading{tok: T["TIDENT"]}
	case kInt, kFloat, kNumBad:
		if !has("ScanNumberLit") {
			return Reading{tok: T["TILLEGAL"], partial: true}
		}
		switch cl.kind {
		case kInt:
			return Reading{tok: T["TINTLIT"]}
		case kFloat:
			return Reading{tok: T["TFLOATLIT"]}
		}
		return Reading{tok: T["TILLEGAL"], err: true}
	case kDot:
		if has("ScanNumberLit") {
			return Reading{tok: T["TILLEGAL"], err: true}
		}
		return Reading{tok: T["TDOT"]}
	case kDotNum, kDotBad:
		if !has("ScanNumberLit") {
			return Reading{tok: T["TDOT"], partial: true}
		}
		if cl.kind == kDotNum {
			return Reading{tok: T["TFLOATLIT"]}
		}
		return Reading{tok: T["TILLEGAL"], err: true}
	case kStr, kStrBad:
		if !has("ScanStrLit") {
			return Reading{tok: T["TQUOTE"], partial: true}
		}
		if cl.kind == kStr {
			return Reading{tok: T["TSTRLIT"]}
		}
		return Reading{tok: T["TILLEGAL"], err: true}
	case kPunct:
		return Reading{tok: T[cl.tok]}
	case kEOF:
		return Reading{tok: T["TEOF"]}
	case kOther:
		return Reading{tok: T["TILLEGAL"]}
	}
	return Reading{tok: T["TILLEGAL"], err: true}
}

// fixedText is the text all lexemes of the set share when read fully or partially.
func (lx *Lex) fixedText(s CSet, partial bool) (string, bool) {
	text, n := "", 0
	for i := range lx.cls {
		if !s.has(i) {
			continue
		}
		t, ok := lx.classText(i, partial)
		if !ok || (n > 0 && t != text) {
			return "", false
		}
		text = t
		n++
	}
	return text, n > 0
}

func (lx *Lex) classText(i int, partial bool) (string, bool) {
	if i < 0 {
		return "", false // the text of a comment
	}
	c := &lx.cls[i]
	if partial {
		if c.lo == c.hi && c.lo >= 0 {
			return string(c.lo), true
		}
		if c.kind == kEOF || c.kind == kReadErr {
			return "", true
		}
		return "", false
	}
	return c.text, c.fixed
}

// canBe tells whether a lexeme of the class could have the text s.
func (lx *Lex) canBe(i int, partial bool, s string) bool {
	if i < 0 {
		return strings.HasPrefix(s, "//") && !strings.Contains(s, "\n") ||
			len(s) >= 4 && strings.HasPrefix(s, "/*") && strings.Index(s[2:], "*/") == len(s)-4
	}
	c := &lx.cls[i]
	if t, ok := lx.classText(i, partial); ok {
		return t == s
	}
	if s == "" {
		return false
	}
	r := []rune(s)
	if partial {
		return len(r) == 1 && c.lo <= r[0] && r[0] <= c.hi
	}
	switch c.kind {
	case kIdent:
		return false // all compared words have classes of their own
	case kOther:
		if len(r) != 1 {
			return false
		}
		for _, d := range lx.cls {
			if d.kind != kOther && d.lo <= r[0] && r[0] <= d.hi {
				return false
			}
		}
		return true
	}
	return c.lo <= r[0] && r[0] <= c.hi
}

// anyOf tells whether the set has a class of the kind.
func (lx *Lex) anyOf(s CSet, k ClassKind) bool {
	for i := range lx.cls {
		if s.has(i) && lx.cls[i].kind == k {
			return true
		}
	}
	return false
}

package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// RClass is a set of characters that nothing in the scanner or in the lexical
// grammar tells apart.
type RClass struct {
	lo   rune // its smallest member
	one  bool // it has no other member
	rest []rune
	big  bool // it has more members than rest
}

// RuneClasses is the partition of the characters.
type RuneClasses struct {
	cls     []RClass
	all     CSet
	preds   map[string]func(rune) bool
	words   []string // the words the scanner or the grammar knows, from 1
	wordIdx map[string]int
	allW    CSet
	tokens  map[string]int64
	modes   map[string]int64
	missing []string
}

func newRuneClasses(p *Program, lx *Lex) *RuneClasses {
	rc := &RuneClasses{preds: map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace}, wordIdx: map[string]int{}, tokens: lx.tokens, modes: lx.modes}
	cut := map[rune]bool{0: true, 0x80: true, 0x800: true, 0x10000: true, 0xD800: true, 0xE000: true}
	point := func(r rune) {
		if r >= 0 && r <= unicode.MaxRune {
			cut[r] = true
			cut[r+1] = true
		}
	}
	span := func(a, b rune) { cut[a] = true; cut[b+1] = true }
	span('0', '9')
	span('0', '7')
	span('A', 'Z')
	span('a', 'z')
	span('A', 'F')
	span('a', 'f')
	for _, r := range "\x00\n'\"\\/*.+-_xXeE01" {
		point(r)
	}
	for s := range puncts {
		for _, r := range s {
			point(r)
		}
	}
	words := map[string]bool{"true": true, "false": true, "inf": true, "nan": true}
	for w := range keywords {
		words[w] = true
	}
	isWord := func(s string) bool {
		for i, r := range s {
			if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
				return false
			}
		}
		return s != ""
	}
	var ops []*ssa.Value
	fns := append([]*ssa.Function(nil), p.fns...)
	if f := p.spkgs["lexer/scanner"].Func("init"); f != nil {
		fns = append(fns, f)
	}
	for _, fn := range fns {
		if fn.Pkg != p.spkgs["lexer/scanner"] && (fn.Parent() == nil || fn.Parent().Pkg != p.spkgs["lexer/scanner"]) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n, f, _ := tablePred(c.Common()); f != nil {
						rc.preds[n] = f
					}
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch c := (*o).(type) {
					case *ssa.Const:
						if c.Value == nil {
							continue
						}
						bt, ok := c.Type().Underlying().(*types.Basic)
						if !ok {
							continue
						}
						switch {
						case c.Value.Kind() == constant.String:
							s := constant.StringVal(c.Value)
							if isWord(s) {
								words[s] = true
							}
							if len(s) <= 40 {
								for _, r := range s {
									if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') || len(s) == 1 {
										point(r)
									}
								}
							}
						case bt.Kind() == types.Int32 || bt.Kind() == types.UntypedRune || bt.Kind() == types.Uint8:
							if i, ok := constant.Int64Val(c.Value); ok {
								point(rune(i))
							}
						}
					case *ssa.Function:
						if f, ok := runePreds[c.RelString(nil)]; ok {
							rc.preds[c.RelString(nil)] = f
						}
					}
				}
			}
		}
	}
	var cuts []rune
	for c := range cut {
		cuts = append(cuts, c)
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	var names []string
	for n := range rc.preds {
		names = append(names, n)
	}
	sort.Strings(names)
	idx := map[string]int{}
	k := -1
	for r := rune(0); r <= unicode.MaxRune; r++ {
		for k+1 < len(cuts) && cuts[k+1] <= r {
			k++
		}
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		var kb [40]byte
		key := append(kb[:0], byte(k), byte(k>>8))
		for _, n := range names {
			if rc.preds[n](r) {
				key = append(key, 1)
			} else {
				key = append(key, 0)
			}
		}
		i, ok := idx[string(key)]
		if !ok {
			i = len(rc.cls)
			idx[string(key)] = i
			rc.cls = append(rc.cls, RClass{lo: r, one: true})
			continue
		}
		c := &rc.cls[i]
		c.one = false
		if len(c.rest) < 64 {
			c.rest = append(c.rest, r)
		} else {
			c.big = true
		}
	}
	if len(rc.cls) > 256 {
		rc.missing = append(rc.missing, fmt.Sprintf("the characters fall into %d classes, too many", len(rc.cls)))
	}
	for i := range rc.cls {
		if i < 256 {
			rc.all = rc.all.with(i)
		}
	}
	if n := len(words); foldsCase(p, "lexer/scanner") && 3*n < 250 {
		for _, w := range sortedKeys(words) {
			words[strings.ToUpper(w)] = true
			words[strings.ToUpper(w[:1])+w[1:]] = true
		}
	}
	for _, w := range sortedKeys(words) {
		rc.words = append(rc.words, w)
		rc.wordIdx[w] = len(rc.words)
	}
	for i := 0; i <= len(rc.words) && i < 256; i++ {
		rc.allW = rc.allW.with(i)
	}
	if len(rc.words) > 250 {
		rc.missing = append(rc.missing, "the scanner knows too many words")
	}
	return rc
}

func (rc *RuneClasses) set(f func(r rune) bool) CSet {
	var s CSet
	for i := range rc.cls {
		if f(rc.cls[i].lo) {
			s = s.with(i)
		}
	}
	return s
}

func (rc *RuneClasses) describe(s CSet) string {
	if s == rc.all {
		return "any"
	}
	var r []string
	for i := range rc.cls {
		if s.has(i) {
			c := rc.cls[i]
			x := fmt.Sprintf("%q", c.lo)
			if !c.one {
				x += ".."
			}
			r = append(r, x)
		}
	}
	if len(r) > 6 {
		r = append(r[:6], "...")
	}
	return strings.Join(r, "|")
}

func isLetterR(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDigitR(r rune) bool  { return r >= '0' && r <= '9' }
func isOctR(r rune) bool    { return r >= '0' && r <= '7' }
func isHexR(r rune) bool    { return isDigitR(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' }

// The lexical grammar as an automaton. The input of a step is a character or
// one of these.
const (
	inEOF rune = -1
	inErr rune = -2
)

// rstep is the effect of a character on the specification.
type rstep struct {
	q     string // the next state; =kind when the token is complete
	begin bool   // the token or comment begins with this character
	take  bool   // the character belongs to the token that is complete
	com   bool   // a comment is complete (take tells whether the character belongs to it)
	stay  bool   // the character has to be read again
}

// token kinds of the automaton: =<name of the token>, =ident, =err, =readerr.
func (rc *RuneClasses) step(q string, mode int64, c rune) rstep {
	has := func(m string) bool { return mode&rc.modes[m] != 0 }
	ends := func(kind string) rstep { return rstep{q: "=" + kind} }
	switch q {
	case "START":
		switch {
		case c == inEOF:
			return rstep{q: "=TEOF", begin: true}
		case c == inErr:
			return rstep{q: "=readerr", begin: true}
		case unicode.IsSpace(c):
			return rstep{q: "START"}
		case isLetterR(c) || c == '_':
			return rstep{q: "IDENT", begin: true}
		case c == '/':
			return rstep{q: "SLASH", begin: true}
		case c == '\'' && has("ScanStrLit"):
			return rstep{q: "STR1", begin: true}
		case c == '"' && has("ScanStrLit"):
			return rstep{q: "STR2", begin: true}
		case c == '0' && has("ScanNumberLit"):
			return rstep{q: "ZERO", begin: true}
		case isDigitR(c) && has("ScanNumberLit"):
			return rstep{q: "DEC", begin: true}
		case c == '.' && has("ScanNumberLit"):
			return rstep{q: "DOT", begin: true}
		}
		kind := "TILLEGAL"
		switch c {
		case '"', '\'':
			kind = "TQUOTE"
		case '.':
			kind = "TDOT"
		default:
			if t, ok := puncts[string(c)]; ok {
				kind = t
			}
		}
		return rstep{q: "=" + kind, begin: true, take: true}
	case "IDENT":
		if isLetterR(c) || isDigitR(c) || c == '_' {
			return rstep{q: "IDENT"}
		}
		return ends("ident")
	case "SLASH":
		switch c {
		case '/':
			return rstep{q: "LINE"}
		case '*':
			return rstep{q: "BLOCK"}
		}
		return ends("err")
	case "LINE":
		switch {
		case c == '\n' || c == inEOF || c == inErr:
			if has("ScanComment") {
				return rstep{q: "=TCOMMENT", com: true}
			}
			return rstep{q: "START", com: true, stay: c < 0}
		}
		return rstep{q: "LINE"}
	case "BLOCK", "BSTAR":
		switch {
		case c < 0:
			return ends("err")
		case c == '*':
			return rstep{q: "BSTAR"}
		case c == '/' && q == "BSTAR":
			if has("ScanComment") {
				return rstep{q: "=TCOMMENT", com: true, take: true}
			}
			return rstep{q: "START", com: true, take: true}
		}
		return rstep{q: "BLOCK"}
	case "STR1", "STR2":
		switch {
		case c < 0 || c == 0 || c == '\n':
			return ends("err")
		case c == '\\':
			return rstep{q: "ESC" + q[3:]}
		case c == '\'' && q == "STR1", c == '"' && q == "STR2":
			return rstep{q: "=TSTRLIT", take: true}
		}
		return rstep{q: q}
	case "ESC1", "ESC2":
		if c < 0 || c == 0 || c == '\n' {
			return ends("err")
		}
		return rstep{q: "STR" + q[3:]}
	case "ZERO", "OCT":
		switch {
		case q == "ZERO" && (c == 'x' || c == 'X'):
			return rstep{q: "HEX0"}
		case q == "ZERO" && c == '.':
			return rstep{q: "FRAC"}
		case q == "ZERO" && (c == 'e' || c == 'E'):
			return rstep{q: "EXP0"}
		case isOctR(c):
			return rstep{q: "OCT"}
		}
		return ends("TINTLIT")
	case "DEC":
		switch {
		case c == '.':
			return rstep{q: "FRAC"}
		case c == 'e' || c == 'E':
			return rstep{q: "EXP0"}
		case isDigitR(c):
			return rstep{q: "DEC"}
		}
		return ends("TINTLIT")
	case "HEX0", "HEX":
		if isHexR(c) {
			return rstep{q: "HEX"}
		}
		if q == "HEX0" {
			return ends("err")
		}
		return ends("TINTLIT")
	case "DOT", "FRAC":
		if isDigitR(c) {
			return rstep{q: "FRAC"}
		}
		if q == "DOT" {
			return ends("err")
		}
		if c == 'e' || c == 'E' {
			return rstep{q: "EXP0"}
		}
		return ends("TFLOATLIT")
	case "EXP0", "EXPS", "EXPD":
		switch {
		case isDigitR(c):
			return rstep{q: "EXPD"}
		case q == "EXP0" && (c == '+' || c == '-'):
			return rstep{q: "EXPS"}
		case q == "EXPD":
			return ends("TFLOATLIT")
		}
		return ends("err")
	}
	return rstep{q: q}
}

// kindOf is the token kind of a complete token.
func (rc *RuneClasses) kindOf(q string, mode int64, word int) string {
	if q != "=ident" {
		return strings.TrimPrefix(q, "=")
	}
	has := func(m string) bool { return mode&rc.modes[m] != 0 }
	w := ""
	if word > 0 {
		w = rc.words[word-1]
	}
	switch {
	case has("ScanBoolLit") && (w == "true" || w == "false"):
		return "TBOOLLIT"
	case has("ScanNumberLit") && (w == "inf" || w == "nan"):
		return "TFLOATLIT"
	case has("ScanKeyword") && keywords[w] != "":
		return keywords[w]
	}
	return "TIDENT"
}

package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The analyses of the scanner.

// object makes a scanner whose history is unknown: it stands at boundary at,
// with the given characters of the last scan and put back earlier.
func (s *RuneSem) object(e *Engine, st *State, at int, mode int64, raw, buf []Val) Val {
	z := zeroVal(s.scnType).(VStruct)
	f := append([]Val(nil), z.F...)
	pos := s.position(func(c byte) Val { return RPos{at, c} }, VOpaque{"columns"})
	if s.posPtr {
		f[s.fld["pos"]] = VPtr{st.alloc(pos), ""}
	} else {
		f[s.fld["pos"]] = pos
	}
	f[s.fld["mode"]] = VInt(mode)
	f[s.fld["comments"]] = e.newSlice(st, []Val{RCRest{}})
	if i, ok := s.fld["err"]; ok {
		f[i] = VNil{}
	}
	f[s.fld["rd"]] = VOpaque{"reader"}
	if t := s.scnType.Underlying().(*types.Struct).Field(s.fld["rd"]).Type(); types.IsInterface(t) {
		f[s.fld["rd"]] = VIface{types.Typ[types.UnsafePointer], VOpaque{"reader"}}
	}
	f[s.fld["raw"]] = e.newSlice(st, raw)
	f[s.fld["buf"]] = e.newSlice(st, buf)
	p := VPtr{st.alloc(VStruct{f}), ""}
	runeDom(st).scn = p
	return p
}

// position makes a position.
func (s *RuneSem) position(num func(byte) Val, columns Val) Val {
	v := zeroVal(s.posType)
	for _, c := range []byte("OLC") {
		v, _ = setPath(v, pathSplit(s.numPath[c]), num(c))
	}
	if p := fieldPath(s.posType, "Filename"); p != "" {
		v, _ = setPath(v, pathSplit(p), filenameVal)
	}
	st := s.posType.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			v, _ = setPath(v, []int{i}, columns)
		}
	}
	return v
}

// fieldPath finds a field, also in embedded structs.
func fieldPath(t types.Type, name string) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return pathAdd("", i)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p := fieldPath(st.Field(i).Type(), name); p != "" {
				return pathAdd("", i) + p
			}
		}
	}
	return ""
}

// list shows the content of a list field of the scanner.
func (s *RuneSem) list(e *Engine, st *State, k string) ([]Val, bool) {
	v, ok := s.field(st, k)
	if !ok {
		return nil, false
	}
	if _, isNil := v.(VNil); isNil {
		return nil, true
	}
	its, ok := e.items(st, v)
	if !ok {
		return nil, false
	}
	if k != "comments" {
		its = normRunes(runeDom(st), its, false)
	}
	return its, true
}

// sameList compares the content of a list of characters with what it should be.
func (s *RuneSem) sameList(st *State, got, want []Val) bool {
	d := runeDom(st)
	want = normRunes(d, want, false)
	got = normRunes(d, got, false)
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !sameVal(got[i], want[i]) {
			return false
		}
	}
	return true
}

func (s *RuneSem) showList(d *RuneDom, vs []Val) string {
	if len(vs) == 0 {
		return "nothing"
	}
	var r []string
	for _, v := range vs {
		r = append(r, s.showVal(d, v))
	}
	return strings.Join(r, " and ")
}

// feed lets the specification read everything that the scanner has seen.
func (s *RuneSem) feed(e *Engine, st *State, then func(st *State)) {
	for {
		d := runeDom(st)
		if d.done() {
			break
		}
		var in rune
		if d.pos >= d.n() {
			switch d.end {
			case 'E':
				in = inEOF
			case 'X':
				in = inErr
			}
			if in == 0 {
				break
			}
		}
		if sts := s.stepOne(st, in); sts != nil {
			for _, x := range sts {
				s.feed(e, x, then)
			}
			return
		}
	}
	then(st)
}

// lexCat is the property that speaks about a part of the source.
func (s *RuneSem) lexCat(d *RuneDom) string {
	if d.q == "START" || strings.HasPrefix(d.q, "LINE") || d.q == "BLOCK" || d.q == "BSTAR" || d.q == "SLASH" || d.q == "=TCOMMENT" {
		return "C19"
	}
	if d.start >= 0 && d.start < d.n() && d.segs[d.start].one && d.segs[d.start].cls.subset(s.rc.set(func(r rune) bool { return r == '/' })) {
		return "C19"
	}
	return "C18"
}

// judgeScan decides whether a scan has done what the specification says.
func (s *RuneSem) judgeScan(e *Engine, st *State, res []Val) {
	pos := e.pos(st)
	if len(res) != 4 {
		e.undecided(st, pos, "Scan does not return a token, a text, a position and an error")
		return
	}
	s.feed(e, st, func(x *State) { s.judgeScan1(e, x, res, pos) })
}

func (s *RuneSem) judgeScan1(e *Engine, st *State, res []Val, pos token.Pos) {
	d := runeDom(st)
	s.judged++
	var p int
	switch v := s.curPos(st).(type) {
	case RPos:
		p = v.B
	case RBad:
		e.report(st, "C21", pos, "the position of the scanner is not that of any character after the scan")
		return
	default:
		e.undecided(st, pos, "the position of the scanner is not known after the scan")
		return
	}
	// what has been read, and what is put back
	if raw, ok := s.list(e, st, "raw"); !ok {
		e.undecided(st, pos, "the raw text of the scan is not known")
	} else if want := []Val{RSpan{0, p}}; !s.sameList(st, raw, want) {
		e.report(st, "C20", pos, "the raw text of the scan is %s instead of %s", s.showList(d, raw), s.showList(d, normRunes(d, want, false)))
	}
	s.checkBuf(e, st, p, pos)
	_, errNil := res[3].(VNil)
	if _, top := res[3].(VTop); top {
		e.undecided(st, pos, "it is not known whether the scan fails")
		return
	}
	if m, ok := s.field(st, "mode"); !ok || m != Val(VInt(d.mode)) {
		e.report(st, "C17", pos, "the scanning mode is changed by a scan")
	}
	if s.fld["err"] != 0 || s.hasErr() {
		if v, ok := s.field(st, "err"); ok && d.end == 'X' && errNil {
			if _, isNil := v.(VNil); isNil {
				e.report(st, "C26", pos, "the failure of the reader is forgotten after a scan without an error")
			}
		}
	} else if d.end == 'X' && errNil {
		e.report(st, "C26", pos, "the failure of the reader is forgotten after a scan without an error")
	}
	if !d.done() {
		switch {
		case !errNil:
			e.report(st, s.lexCat(d), pos, "the scan fails although %s may be the beginning of a valid token or comment", s.showSpan(d, 0, d.n()))
		case d.q == "START":
			e.report(st, "C19", pos, "a token is returned although nothing but spaces and comments has been read (%s)", s.showSpan(d, 0, d.n()))
		default:
			e.report(st, s.lexCat(d), pos, "a token is returned before it is known whether %s goes on", s.showSpan(d, d.start, d.n()))
		}
		return
	}
	kind := d.q[1:]
	switch kind {
	case "err":
		if errNil {
			e.report(st, s.lexCat(d), pos, "the malformed token %s is accepted", s.showSpan(d, d.start, d.n()))
		} else if t, ok := res[0].(VInt); ok && int64(t) != s.rc.tokens["TILLEGAL"] {
			e.report(st, "C17", pos, "a malformed token is reported as %s", s.tokName(int64(t)))
		}
		return
	case "readerr":
		if errNil {
			e.report(st, "C26", pos, "the scan succeeds although reading the source fails")
		}
		return
	}
	if !errNil {
		if d.end != 'X' {
			e.report(st, s.lexCat(d), pos, "the scan fails although %s is a valid token", s.showSpan(d, d.start, d.fin))
		}
		return
	}
	// kind
	cat := s.lexCat(d)
	if t, ok := res[0].(VInt); !ok {
		e.undecided(st, pos, "the token kind is not known")
	} else {
		bad := map[string]bool{}
		kinds := []string{kind}
		if kind == "ident" {
			kinds = nil
			f := d.fact(d.start, d.fin, s.rc.allW)
			for w := 0; w <= len(s.rc.words) && w < 256; w++ {
				if f.has(w) && s.feasible(d, w) {
					kinds = append(kinds, s.rc.kindOf(d.q, d.mode, w))
				}
			}
		}
		for _, k := range kinds {
			if want, ok := s.rc.tokens[k]; !ok {
				e.undecided(st, pos, "the token %s is not declared", k)
			} else if want != int64(t) {
				bad[k] = true
			}
		}
		for _, k := range sortedKeys(bad) {
			e.report(st, "C17", pos, "%s is reported as %s instead of %s%s", s.showSpan(d, d.start, d.fin), s.tokName(int64(t)), k, s.modeName(d.mode))
		}
		if len(bad) > 0 && !s.sameText(d, res[1]) {
			// a different token altogether
			if _, top := res[1].(VTop); !top {
				e.report(st, cat, pos, "the text of the token is %s instead of %s", s.showVal(d, res[1]), s.showSpan(d, d.start, d.fin))
			}
			if v, ok := s.posOf(res[2]).(RPos); ok && v.B > d.start {
				e.report(st, "C19", pos, "%s is skipped as if it were space", s.showSpan(d, d.start, d.fin))
			}
			return
		}
	}
	// text
	if _, top := res[1].(VTop); top {
		e.undecided(st, pos, "the text of the token is not known")
	} else if !s.sameText(d, res[1]) {
		e.report(st, cat, pos, "the text of the token is %s instead of %s", s.showVal(d, res[1]), s.showSpan(d, d.start, d.fin))
	}
	// position
	switch v := s.posOf(res[2]).(type) {
	case RPos:
		if v.B != d.start {
			e.report(st, "C21", pos, "the position of the token is that of %d instead of that of its first character %d", v.B, d.start)
		}
	case RBad:
		e.report(st, "C21", pos, "the position of the token is not that of any character")
	default:
		e.undecided(st, pos, "the position of the token is not known")
	}
	if fp := fieldPath(s.posType, "Filename"); fp != "" {
		if v, ok := getPath(res[2], pathSplit(fp)); !ok || !sameVal(v, filenameVal) {
			e.report(st, "C29", pos, "the position of the token has another file name")
		}
	}
	// what is consumed
	if p != d.fin && !(d.nl && p == d.fin+1) {
		e.report(st, cat, pos, "the scan of %s (%s) stops at %d", s.showSpan(d, d.start, d.fin), d.q, p)
	}
	// comments
	coms, ok := s.list(e, st, "comments")
	if !ok {
		e.undecided(st, pos, "the list of the comments is not known")
		return
	}
	if len(coms) > 0 && coms[0] == Val(RCRest{}) {
		coms = coms[1:]
	} else {
		e.report(st, "C19", pos, "the comments scanned earlier are lost")
		return
	}
	for i := 0; i < len(coms) || i < len(d.coms); i++ {
		switch {
		case i >= len(coms):
			e.report(st, "C19", pos, "the comment %s is not recorded", s.showSpan(d, d.coms[i].Lo, d.coms[i].Hi))
			return
		case i >= len(d.coms):
			e.report(st, "C19", pos, "a comment is recorded that is none")
			return
		}
		if m := s.commentIs(d, coms[i], d.coms[i]); m != "" {
			c := "C19"
			if strings.Contains(m, "position") {
				c = "C21"
			}
			if m == "is not known" {
				c = "undecided"
			}
			e.report(st, c, pos, "a recorded comment %s", m)
			return
		}
	}
}

func (s *RuneSem) hasErr() bool { _, ok := s.fld["err"]; return ok }

// checkBuf checks what is put back: everything behind boundary p, and no more.
func (s *RuneSem) checkBuf(e *Engine, st *State, p int, pos token.Pos) {
	d := runeDom(st)
	buf, ok := s.list(e, st, "buf")
	if !ok {
		e.undecided(st, pos, "what is put back is not known")
		return
	}
	var want []Val
	if !d.restGone {
		want = append(want, RRest{})
	}
	want = append(want, RRev{p, d.n()})
	if !s.sameList(st, buf, want) {
		e.report(st, "C20", pos, "what is put back is %s instead of %s", s.showList(d, buf), s.showList(d, normRunes(d, want, false)))
	}
}

// sameText compares a text with that of the token.
func (s *RuneSem) sameText(d *RuneDom, v Val) bool {
	t, ok := v.(VStr)
	if !ok {
		return false
	}
	at := d.start
	for _, p := range s.norm(d, t).P {
		switch x := p.(type) {
		case RSpan:
			if x.Lo != at {
				return false
			}
			at = x.Hi
		case VConstStr:
			// a constant that is the only thing that can be there
			if at == d.start && len(t.P) == 1 && d.q == "=ident" {
				if w, ok := s.rc.wordIdx[string(x)]; ok && d.fact(d.start, d.fin, s.rc.allW) == (CSet{}).with(w) {
					return true
				}
			}
			for _, r := range string(x) {
				if at >= d.n() || !d.segs[at].one {
					return false
				}
				if k, ok := s.known(d, at); !ok || k != r {
					return false
				}
				at++
			}
		default:
			return false
		}
	}
	return at == d.fin
}

// feasible tells whether the token can be a word.
func (s *RuneSem) feasible(d *RuneDom, w int) bool {
	if w == 0 {
		return true
	}
	rs := []rune(s.rc.words[w-1])
	k := 0
	for i := d.start; i < d.fin; i++ {
		if !d.segs[i].one {
			return true
		}
		if k >= len(rs) {
			return false
		}
		if !s.rc.member(d.segs[i].cls, rs[k]) {
			return false
		}
		k++
	}
	return k == len(rs)
}

// member tells whether a character is in one of the classes.
func (rc *RuneClasses) member(set CSet, r rune) bool {
	for i := range rc.cls {
		if !set.has(i) {
			continue
		}
		c := &rc.cls[i]
		if c.lo == r {
			return true
		}
		for _, x := range c.rest {
			if x == r {
				return true
			}
		}
	}
	return false
}

func (s *RuneSem) tokName(t int64) string {
	for _, k := range sortedKeys(s.rc.tokens) {
		if s.rc.tokens[k] == t {
			return k
		}
	}
	return fmt.Sprint(t)
}

func (s *RuneSem) modeName(m int64) string {
	var r []string
	for _, k := range sortedKeys(s.rc.modes) {
		if b := s.rc.modes[k]; b != 0 && m&b == b && b&(b-1) == 0 {
			r = append(r, k)
		}
	}
	if len(r) == 0 {
		return " in the default mode"
	}
	return " in the mode " + strings.Join(r, "|")
}

// runeRoot is one root of the exploration of the scanner.
type runeRoot struct {
	name string
	run  func(s *RuneSem, e *Engine)
}

// modeBits are the single bits of the modes, as declared.
func (rc *RuneClasses) modeBits() []int64 {
	var r []int64
	seen := map[int64]bool{}
	for _, b := range rc.modes {
		if b > 0 && b&(b-1) == 0 && !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (s *RuneSem) begin(e *Engine, d *RuneDom) *State {
	st := e.newState()
	st.dom = d
	return st
}

func runeRoots(s *RuneSem) []runeRoot {
	p := s.p
	var roots []runeRoot
	bits := s.rc.modeBits()
	method := func(e *Engine, typ, name string) *ssa.Function {
		f := p.method("lexer/scanner", typ, name)
		if f == nil {
			e.undecided(nil, 0, "%s.%s cannot be found", typ, name)
		}
		return f
	}
	start := func(e *Engine, st *State, f *ssa.Function, args ...Val) {
		if len(args) != len(f.Params) {
			e.undecided(nil, f.Pos(), "%s has other parameters than expected", f)
			return
		}
		e.push(st, f, args, nil, nil)
		e.explore(st)
	}
	for m := 0; m < 1<<len(bits); m++ {
		mode := int64(0)
		for i, b := range bits {
			if m&(1<<i) != 0 {
				mode |= b
			}
		}
		for _, failed := range []bool{false, true} {
			mode, failed := mode, failed
			if failed && !s.hasErr() {
				continue
			}
			name := "Scan" + s.modeName(mode)
			if failed {
				name += " after a failure of the reader"
			}
			roots = append(roots, runeRoot{name, func(s *RuneSem, e *Engine) {
				f := method(e, "Scanner", "Scan")
				if f == nil {
					return
				}
				d := &RuneDom{on: true, mode: mode, q: "START", start: -1, fin: -1}
				if failed {
					d.end = 'X'
				}
				st := s.begin(e, d)
				scn := s.object(e, st, 0, mode, []Val{VOpaque{"the raw text of the scan before"}}, []Val{RRest{}})
				if failed {
					ptr := scn.(VPtr)
					st.heap[ptr.Obj], _ = setPath(st.heap[ptr.Obj], []int{s.fld["err"]}, readErr)
				}
				s.check = s.judgeScan
				start(e, st, f, scn)
			}})
		}
	}
	many := func() *RuneDom {
		return &RuneDom{segs: []RSeg{{}}, q: "START", start: -1, fin: -1}
	}
	roots = append(roots, runeRoot{"UnScan", func(s *RuneSem, e *Engine) {
		f := method(e, "Scanner", "UnScan")
		if f == nil {
			return
		}
		st := s.begin(e, many())
		scn := s.object(e, st, 1, 0, []Val{RSpan{0, 1}}, []Val{RRest{}})
		s.check = func(e *Engine, st *State, res []Val) {
			s.judged++
			pos := e.pos(st)
			for i, v := range []Val{s.curPos(st), s.posOf(res[0])} {
				what := []string{"of the scanner", "returned"}[i]
				switch x := v.(type) {
				case RPos:
					if x.B != 0 {
						e.report(st, "C20", pos, "the position %s is not that before the scan", what)
					}
				case RBad:
					e.report(st, "C20", pos, "the position %s is not that of any character", what)
				default:
					e.undecided(st, pos, "the position %s is not known", what)
				}
			}
			s.checkBuf(e, st, 0, pos)
			s.checkComs(e, st, pos)
		}
		start(e, st, f, scn)
	}})
	roots = append(roots, runeRoot{"LastScanRaw", func(s *RuneSem, e *Engine) {
		f := method(e, "Scanner", "LastScanRaw")
		if f == nil {
			return
		}
		st := s.begin(e, many())
		scn := s.object(e, st, 1, 0, []Val{RSpan{0, 1}}, []Val{RRest{}})
		s.check = func(e *Engine, st *State, res []Val) {
			s.judged++
			pos := e.pos(st)
			d := runeDom(st)
			its, ok := e.items(st, res[0])
			if _, isNil := res[0].(VNil); isNil {
				its, ok = nil, true
			}
			if !ok {
				e.undecided(st, pos, "the text returned is not known")
				return
			}
			if !s.sameList(st, its, []Val{RSpan{0, d.n()}}) {
				e.report(st, "C20", pos, "LastScanRaw returns %s instead of the last text read", s.showList(d, its))
			}
			v, _ := s.field(st, "raw")
			if a, ok := v.(VSlice); ok {
				if b, ok := res[0].(VSlice); ok && a.Obj == b.Obj && len(its) > 0 {
					e.report(st, "C20", pos, "LastScanRaw returns the list that the next scan overwrites")
				}
			}
			if raw, ok := s.list(e, st, "raw"); ok && !s.sameList(st, raw, []Val{RSpan{0, d.n()}}) {
				e.report(st, "C20", pos, "the last text read is changed")
			}
			s.checkStill(e, st, pos)
		}
		start(e, st, f, scn)
	}})
	roots = append(roots, runeRoot{"SetLastScanRaw", func(s *RuneSem, e *Engine) {
		f := method(e, "Scanner", "SetLastScanRaw")
		if f == nil {
			return
		}
		st := s.begin(e, many())
		scn := s.object(e, st, 1, 0, []Val{VOpaque{"the raw text of the scan before"}}, []Val{RRest{}})
		arg := e.newSlice(st, []Val{RSpan{0, 1}})
		s.check = func(e *Engine, st *State, res []Val) {
			s.judged++
			pos := e.pos(st)
			d := runeDom(st)
			if raw, ok := s.list(e, st, "raw"); !ok {
				e.undecided(st, pos, "the last text read is not known")
			} else if !s.sameList(st, raw, []Val{RSpan{0, d.n()}}) {
				e.report(st, "C20", pos, "SetLastScanRaw sets %s instead of the text given", s.showList(d, raw))
			}
			s.checkStill(e, st, pos)
		}
		start(e, st, f, scn, arg)
	}})
	roots = append(roots, runeRoot{"AdvancedBulk", func(s *RuneSem, e *Engine) {
		f := method(e, "Position", "AdvancedBulk")
		if f == nil {
			return
		}
		d := many()
		d.segs[0].min = 1
		st := s.begin(e, d)
		arg := s.position(func(c byte) Val { return RPos{0, c} }, VOpaque{"columns"})
		if _, ptr := f.Params[0].Type().(*types.Pointer); ptr {
			arg = VPtr{st.alloc(arg), ""}
		}
		s.check = func(e *Engine, st *State, res []Val) {
			s.judged++
			pos := e.pos(st)
			d := runeDom(st)
			v := res[0]
			if p, ok := v.(VPtr); ok {
				v, _ = st.load(p)
			}
			switch x := s.posOf(v).(type) {
			case RPos:
				if x.B != d.n()-1 || !d.segs[x.B].one {
					e.report(st, "C21", pos, "AdvancedBulk does not lead to the last character of the text")
				}
			case RBad:
				e.report(st, "C21", pos, "AdvancedBulk moves by a character that is not there")
			default:
				e.undecided(st, pos, "the position AdvancedBulk returns is not known")
			}
		}
		start(e, st, f, arg, VStr{[]Val{RSpan{0, 1}}})
	}})
	for _, name := range []string{"Advance", "Revert"} {
		name := name
		roots = append(roots, runeRoot{name, func(s *RuneSem, e *Engine) {
			if f := method(e, "Position", name); f != nil {
				s.lemmaRoot(e, f, name == "Revert")
			}
		}})
	}
	roots = append(roots, runeRoot{"NewScanner", func(s *RuneSem, e *Engine) { s.newScannerRoot(e, start) }})
	return roots
}

// checkComs checks that the comments are what they were.
func (s *RuneSem) checkComs(e *Engine, st *State, pos token.Pos) {
	if coms, ok := s.list(e, st, "comments"); !ok {
		e.undecided(st, pos, "the list of the comments is not known")
	} else if len(coms) != 1 || coms[0] != Val(RCRest{}) {
		e.report(st, "C19", pos, "the comments scanned earlier are changed")
	}
}

// checkStill checks that neither the position nor what is put back has changed.
func (s *RuneSem) checkStill(e *Engine, st *State, pos token.Pos) {
	d := runeDom(st)
	if v, ok := s.curPos(st).(RPos); !ok || v.B != d.n() {
		e.report(st, "C20", pos, "the position of the scanner is changed")
	}
	s.checkBuf(e, st, d.n(), pos)
	s.checkComs(e, st, pos)
}

// lemmaRoot analyses how a position is moved over one character.
func (s *RuneSem) lemmaRoot(e *Engine, f *ssa.Function, back bool) {
	s.lemma = true
	defer func() { s.lemma = false }()
	st := s.begin(e, &RuneDom{segs: []RSeg{{true, 1, s.rc.all}}, q: "START", start: -1, fin: -1})
	cols := st.alloc(VMapC{})
	n := 0
	stt := s.posType.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if m, ok := stt.Field(i).Type().Underlying().(*types.Map); ok {
			n++
			if m.Key().String() != "int" || m.Elem().String() != "int" {
				n = 2
			}
		} else if !stt.Field(i).Embedded() && !strings.Contains("Filename Offset Line Column", stt.Field(i).Name()) {
			n = 2
		}
	}
	if n != 1 {
		e.undecided(nil, f.Pos(), "how a position remembers the columns of earlier lines is not known")
		return
	}
	// back: the position is (O, L, C) where C is 1 behind a new line
	start := func(c byte) Val { return RAff{string([]byte{c}), 0} }
	p := VPtr{st.alloc(s.position(start, VMap{cols})), ""}
	runeDom(st).scn = VTuple{[]Val{p, VMap{cols}}}
	s.check = func(e *Engine, st *State, res []Val) {
		s.judged++
		pos := e.pos(st)
		for _, o := range s.fork(st, 0, func(k int) Val {
			r := s.rc.cls[k].lo
			b := 0
			if r == '\n' {
				b = 8
			}
			return VInt(len(string(r)) + b)
		}) {
			w := int(o.v.(VInt))
			nl := w >= 8
			w &= 7
			want := map[byte]Val{}
			if back {
				want['O'], want['L'], want['C'] = RAff{"O", -w}, RAff{"L", 0}, RAff{"C", -1}
				if nl {
					want['L'], want['C'] = RAff{"L", -1}, RAff{"ML-1", 0}
				}
			} else {
				want['O'], want['L'], want['C'] = RAff{"O", w}, RAff{"L", 0}, RAff{"C", 1}
				if nl {
					want['L'], want['C'] = RAff{"L", 1}, VInt(1)
				}
			}
			d := runeDom(o.st)
			ch := s.rc.describe(d.segs[0].cls)
			held := d.scn.(VTuple).F
			v, _ := o.st.load(held[0].(VPtr))
			for _, c := range []byte("OLC") {
				x, ok := getPath(v, pathSplit(s.numPath[c]))
				name := map[byte]string{'O': "offset", 'L': "line", 'C': "column"}[c]
				if _, top := x.(VTop); !ok || top {
					e.undecided(o.st, pos, "the %s after %s is not known", name, f.Name())
				} else if !sameVal(x, want[c]) {
					e.report(o.st, "C21", pos, "%s over %s gives the %s %s instead of %s", f.Name(), ch, name, showAff(x), showAff(want[c]))
				}
			}
			m, ok := o.st.heap[held[1].(VMap).Obj].(VMapC)
			if !ok {
				e.undecided(o.st, pos, "the columns of earlier lines are not known after %s", f.Name())
				continue
			}
			saved := false
			for i, k := range m.K {
				a, ok := k.(RAff)
				switch {
				case !ok || a.Sym != "L":
					e.report(o.st, "C21", pos, "%s changes the column remembered for another line", f.Name())
				case back:
					if a.N < -1 || a.N < 0 && !nl {
						e.report(o.st, "C21", pos, "Revert changes the column remembered for an earlier line")
					}
				case a.N < 0:
					e.report(o.st, "C21", pos, "Advance changes the column remembered for an earlier line")
				case a.N == 0 && nl:
					saved = true
					if !sameVal(m.V[i], RAff{"C", 0}) {
						e.report(o.st, "C21", pos, "the column %s is remembered at the end of a line instead of %s", showAff(m.V[i]), "column")
					}
				}
			}
			if nl && !back && !saved {
				e.report(o.st, "C21", pos, "the column at the end of a line is not remembered")
			}
		}
	}
	if len(f.Params) != 2 {
		e.undecided(nil, f.Pos(), "%s has other parameters than expected", f)
		return
	}
	e.push(st, f, []Val{p, RCh{0}}, nil, nil)
	e.explore(st)
}

func showAff(v Val) string {
	a, ok := v.(RAff)
	if !ok {
		if n, ok := v.(VInt); ok {
			return fmt.Sprint(int(n))
		}
		return "something unknown"
	}
	name := map[string]string{"O": "offset", "L": "line", "C": "column"}[a.Sym]
	if name == "" {
		name = "the column remembered for the line" + a.Sym[2:]
	}
	if a.N != 0 {
		name += fmt.Sprintf("%+d", a.N)
	}
	return name
}

// newScannerRoot analyses what a new scanner begins with.
func (s *RuneSem) newScannerRoot(e *Engine, start func(e *Engine, st *State, f *ssa.Function, args ...Val)) {
	f := s.p.fn("lexer/scanner", "NewScanner")
	if f == nil {
		e.undecided(nil, 0, "scanner.NewScanner cannot be found")
		return
	}
	st := s.begin(e, &RuneDom{q: "START", start: -1, fin: -1})
	s.check = func(e *Engine, st *State, res []Val) {
		s.judged++
		pos := e.pos(st)
		runeDom(st).scn = res[0]
		v, ok := s.field(st, "pos")
		if p, isPtr := v.(VPtr); ok && isPtr {
			v, ok = st.load(p)
		}
		if !ok {
			e.undecided(st, pos, "the position of a new scanner is not known")
			return
		}
		for c, want := range map[byte]int{'O': 0, 'L': 1, 'C': 1} {
			x, _ := getPath(v, pathSplit(s.numPath[c]))
			if x != Val(VInt(want)) {
				e.report(st, "C21", pos, "a new scanner does not begin at offset 0, line 1, column 1")
			}
		}
		stt := s.posType.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if _, ok := stt.Field(i).Type().Underlying().(*types.Map); ok {
				if x, _ := getPath(v, []int{i}); x == Val(VNil{}) {
					e.report(st, "panic", pos, "a new scanner cannot remember columns")
				}
			}
		}
		for _, k := range []string{"raw", "buf", "comments"} {
			if l, ok := s.list(e, st, k); !ok || len(l) > 0 {
				e.report(st, "C20", pos, "a new scanner begins with something put back or scanned")
			}
		}
		if m, ok := s.field(st, "mode"); !ok || m != Val(VInt(0)) {
			e.report(st, "C17", pos, "a new scanner does not begin in the default mode")
		}
		if s.hasErr() {
			if x, ok := s.field(st, "err"); !ok || x != Val(VNil{}) {
				e.report(st, "C26", pos, "a new scanner begins with an error")
			}
		}
	}
	reader := VIface{types.Typ[types.UnsafePointer], VOpaque{"reader"}}
	args := []Val{reader}
	if len(f.Params) == 2 {
		args = append(args, VNil{})
	}
	start(e, st, f, args...)
}

// runeMain explores some roots of the scanner and prints the result.
func runeMain(repo string, from, step int) {
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		os.Exit(2)
	}
	s, miss := newRuneSem(p)
	o := tokOut{NT: "scanner", Missing: miss}
	if len(miss) == 0 {
		funcs := map[*ssa.Function]bool{}
		var finds []*Finding
		roots := runeRoots(s)
		e := newEngine(p)
		e.sem = s
		e.maxNodes, e.maxFinds = 40000, 12
		fmt.Sscan(os.Getenv("VERIF_DEADLINE"), &e.deadline)
		e.setupGlobals()
		for i := from; i < len(roots); i += step {
			if only := os.Getenv("VERIF_ROOT1"); only != "" && only != roots[i].name {
				continue
			}
			e.root = roots[i].name
			if e.deadline > 0 && time.Now().Unix() > e.deadline {
				e.undecided(nil, 0, "the time for the analysis is over")
				break
			}
			n0, s0 := len(e.finds), e.States
			var prof *profiler
			if os.Getenv("VERIF_PROF") != "" {
				prof = &profiler{map[string]map[string]map[string]int{}, map[string]int{}}
				e.profile = func(st *State) { prof.add(e, st) }
			}
			roots[i].run(s, e)
			if prof != nil {
				prof.print()
			}
			o.Roots++
			o.NTs = append(o.NTs, roots[i].name)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "ROOT %-12s states=%d findings=%d\n", roots[i].name, e.States-s0, len(e.finds)-n0)
			}
		}
		finds = e.findings()
		o.States, o.Returns = e.States, s.judged
		for f := range e.Funcs {
			funcs[f] = true
		}
		for f := range funcs {
			o.Funcs = append(o.Funcs, f.String())
		}
		sort.Strings(o.Funcs)
		o.Edges = len(s.rc.cls)
		for _, f := range finds {
			o.Findings = append(o.Findings, tokFinding{f.Cat, p.posStr(f.Pos), p.funcAt(f), f.Msg, f.Root, f.Trace})
		}
	}
	json.NewEncoder(os.Stdout).Encode(o)
}

// scannerOuts explores all roots of the scanner in several processes.
func scannerOuts(p *Program) []*tokOut {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	outs := make([]*tokOut, n)
	deadline := begun.Add(830 * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cmd := exec.Command("/proc/self/exe", "rune", p.dir, fmt.Sprint(w), fmt.Sprint(n))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", fmt.Sprintf("VERIF_DEADLINE=%d", deadline.Unix()))
			var eb strings.Builder
			cmd.Stderr = &eb
			b, err := cmd.Output()
			o := &tokOut{}
			if err == nil {
				err = json.Unmarshal(b, o)
			}
			if err != nil {
				x := eb.String()
				if len(x) > 500 {
					x = x[:500]
				}
				o = &tokOut{Missing: []string{fmt.Sprintf("the exploration of the scanner ended early: %v %s", err, x)}}
			}
			outs[w] = o
		}(w)
	}
	wg.Wait()
	return outs
}

const runeRule = "Scanner.Scan, in every combination of the mode bits and from every history (unknown text put back, unknown rest of the source), is interpreted abstractly, character by character as sets of character classes, next to an automaton of the lexical grammar; loops are closed by joining what nothing tells apart. "

// runeReport collects what the exploration of the scanner says.
func runeReport(outs []*tokOut, rule string, keep func(o *tokOut, f *tokFinding) bool) *Report {
	r := tokReportOf(outs, rule, keep)
	cover := r.Coverage
	roots, states, returns, classes := 0, 0, 0, 0
	for _, o := range outs {
		roots += o.Roots
		states += o.States
		returns += o.Returns
		if o.Edges > classes {
			classes = o.Edges
		}
	}
	fn := cover["functions_analysed"]
	r.Coverage = map[string]interface{}{}
	r.cover("functions_analysed", fn)
	r.cover("roots_function_times_mode", roots)
	r.cover("abstract_states", states)
	r.cover("returns_judged", returns)
	r.cover("character_classes", classes)
	r.Assume = []string{
		"the source is valid UTF-8 and bufio.Reader.ReadRune delivers its characters one by one",
		"Scan is called through the Scanner's own methods only, so that its fields hold what the analysed methods leave there",
	}
	return r
}

func runeCheck(id, rule string, cs ...string) {
	checks[id] = Check{"other", func(p *Program, tier string) (*Report, error) {
		return runeReport(scannerOuts(p), runeRule+rule, cats(cs...)), nil
	}}
}

func init() {
	runeCheck("C17", "The token kind returned equals that of the automaton for every spelling, and the mode is left as it is.", "C17")
	runeCheck("C18", "Every scan ends exactly where the automaton ends, fails exactly where it fails, and returns the text it covers.", "C18")
	runeCheck("C19", "Every comment and space is skipped, recorded or returned exactly as the automaton does.", "C19")
	runeCheck("C20", "After every scan the raw text is what has been consumed and the text put back is what has been looked at and not consumed; UnScan puts the raw text back in front of it and restores the position.", "C20")
	runeCheck("C21", "Advance and Revert are evaluated over symbolic positions for every class of characters; every position is tied to the boundary between characters it stands at, and the position of every token and comment is the boundary of its first character.", "C21")
}

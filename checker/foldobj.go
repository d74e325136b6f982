package main

// VAgr is an object that code and specification agree on and that does not
// change any more.
type VAgr struct{ ID int }

// Map implements DomVal.
func (v VAgr) Map(m *Mapper) Val { return VAgr{m.lam(v.ID)} }

// Enc implements DomVal.
func (v VAgr) Enc(b *Enc) { b.WriteByte('@'); b.ints(v.ID) }

// replaceExp replaces a part of an expected value wherever it occurs.
func replaceExp(v Val, key string, to Val) Val {
	if encStr(v) == key {
		return to
	}
	fields := func(fs []EField) []EField {
		r := make([]EField, len(fs))
		for i, f := range fs {
			r[i] = EField{f.Name, replaceExp(f.V, key, to)}
		}
		return r
	}
	switch x := v.(type) {
	case EObj:
		return EObj{x.Type, fields(x.F)}
	case ENT:
		return ENT{x.Item, fields(x.F)}
	case VArr:
		r := make([]Val, len(x.E))
		for i, e := range x.E {
			r[i] = replaceExp(e, key, to)
		}
		return VArr{r}
	}
	return v
}

// parts visits the objects and lists in an expected value.
func expParts(v Val, depth int, f func(v Val, depth int)) {
	switch x := v.(type) {
	case EObj:
		f(v, depth)
		for _, g := range x.F {
			expParts(g.V, depth+1, f)
		}
	case ENT:
		f(v, depth)
		for _, g := range x.F {
			expParts(g.V, depth+1, f)
		}
	case VArr:
		f(v, depth)
		for _, g := range x.E {
			expParts(g, depth+1, f)
		}
	}
}

func hasLam(v Val) bool {
	found := false
	mapVal(v, &Mapper{Lam: func(i int) int { found = true; return i }})
	return found
}

// foldParts names finished objects and the lists inside elements.
func (s *TokSem) foldParts(e *Engine, st *State) {
	d := tokDom(st)
	for round := 0; round < 20; round++ {
		if !s.foldPart1(e, st, d) {
			return
		}
		s.Folds++
		d.cfgs = s.dedup(d.cfgs)
		e.gc(st)
	}
}

func (s *TokSem) foldPart1(e *Engine, st *State, d *TokDom) bool {
	type cand struct {
		v    Val
		list bool
	}
	var cs []cand
	seen := map[string]bool{}
	for _, c := range d.cfgs {
		settled := !s.unsettled(d, c.node)
		for _, f := range c.regs {
			expParts(f.V, 0, func(v Val, depth int) {
				ok, list := false, false
				switch x := v.(type) {
				case EObj:
					ok = depth == 0
				case ENT:
					ok = depth == 0 && settled
				case VArr:
					ok = depth > 0 && len(x.E) > 0 && !onlyLam(x.E)
					list = true
				}
				if !ok {
					return
				}
				if k := encStr(v); !seen[k] {
					seen[k] = true
					cs = append(cs, cand{v, list})
				}
			})
		}
	}
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c.list {
			for _, o := range e.wholeArrays(st) {
				arr := st.heap[o].(VArr).E
				x := c.v.(VArr)
				if len(arr) == 0 || e.private(st, o, arr) < len(arr) {
					continue
				}
				m := &matcher{s: s, e: e, st: st}
				m.match(x, VSlice{o, "", 0, -1}, "", "")
				if len(m.out) > 0 {
					continue
				}
				lam := VArr{[]Val{VLam{d.nlam}}}
				d.nlam++
				st.heap[o] = lam
				s.replace1(d, c.v, lam)
				return true
			}
			continue
		}
		for _, o := range e.soleObjects(st) {
			m := &matcher{s: s, e: e, st: st}
			m.match(c.v, VPtr{o, ""}, "", "")
			if len(m.out) > 0 {
				continue
			}
			agr := VAgr{d.nlam}
			d.nlam++
			s.replace1(d, c.v, agr)
			e.rewrite(st, &Mapper{Ptr: func(p VPtr) Val {
				if p.Obj == o {
					return agr
				}
				return p
			}})
			return true
		}
	}
	return false
}

func (s *TokSem) replace1(d *TokDom, from, to Val) {
	key := encStr(from)
	for i := range d.cfgs {
		r := make([]EField, len(d.cfgs[i].regs))
		for k, f := range d.cfgs[i].regs {
			r[k] = EField{f.Name, replaceExp(f.V, key, to)}
		}
		d.cfgs[i].regs = r
	}
}

// soleObjects are the structs that are only referred to as a whole and whose parts nothing else refers to.
func (e *Engine) soleObjects(st *State) []int {
	total := map[int]int{}
	inner := map[int]bool{}
	e.walkAll(st, &Mapper{Obj: func(x int) int { total[x]++; return x }, Ptr: func(p VPtr) Val {
		total[p.Obj]++
		if p.Path != "" {
			inner[p.Obj] = true
		}
		return p
	}})
	var r []int
	for o := e.nbase; o < len(st.heap); o++ {
		if _, ok := st.heap[o].(VStruct); !ok || inner[o] || total[o] == 0 {
			continue
		}
		count := map[int]int{}
		var todo []int
		add := func(x int) {
			if x < e.nbase || x == o {
				return
			}
			if count[x] == 0 {
				todo = append(todo, x)
			}
			count[x]++
		}
		objRefs(st.heap[o], add)
		ok := true
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			objRefs(st.heap[x], add)
		}
		for x, k := range count {
			if total[x] != k {
				ok = false
			}
		}
		if ok {
			r = append(r, o)
		}
	}
	return r
}

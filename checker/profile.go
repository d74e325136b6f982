package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// profiler counts which parts of the states differ at the program points (debugging aid).
type profiler struct {
	pts map[string]map[string]map[string]int
	n   map[string]int
}

func (p *profiler) add(e *Engine, st *State) {
	k := frameNames(st)
	if i := strings.LastIndex(k, "> "); len(k) > 60 && i > 0 {
		k = k[:60] + "..." + k[i:]
	}
	k += fmt.Sprintf(" b%d %s", st.top().block.Index, e.prog.posStr(e.pos(st)))
	m := p.pts[k]
	if m == nil {
		m = map[string]map[string]int{}
		p.pts[k] = m
	}
	p.n[k]++
	if w := os.Getenv("VERIF_AT"); w != "" && strings.HasSuffix(k, w) && p.n[k] < 400 {
		fmt.Println("AT", p.summary(e, st))
	}
	put := func(slot string, v string) {
		if m[slot] == nil {
			m[slot] = map[string]int{}
		}
		m[slot][v]++
	}
	for fi, f := range st.frames {
		for i, v := range f.regs {
			if v != nil {
				name := "?"
				for sv, x := range f.fi.idx {
					if x == i {
						name = sv.Name()
						if sv.Name() != "" {
							name += " " + fmt.Sprint(sv)
						}
					}
				}
				if len(name) > 60 {
					name = name[:60]
				}
				put(fmt.Sprintf("F%d %s %s", fi, f.fi.fn.Name(), name), encStr(v))
			}
		}
		put(fmt.Sprintf("F%d block", fi), fmt.Sprintf("%s %d.%d", f.fi.fn.Name(), f.block.Index, f.pc))
	}
	for _, o := range st.dirty {
		put(fmt.Sprintf("D%d", o), encStr(st.heap[o]))
	}
	for i := e.nbase; i < len(st.heap); i++ {
		put(fmt.Sprintf("H%d", i-e.nbase), encStr(st.heap[i]))
	}
	put("nheap", fmt.Sprint(len(st.heap)-e.nbase))
	d, isTok := st.dom.(*TokDom)
	if !isTok {
		d := st.dom.(*RuneDom)
		put("R n", fmt.Sprint(d.n()))
		put("R end", fmt.Sprint(d.end, d.restGone))
		put("R pos", fmt.Sprint(d.pos))
		put("R q", d.q)
		put("R start", fmt.Sprint(d.start, d.fin, d.nl, d.seen))
		put("R coms", fmt.Sprint(d.coms))
		put("R facts", fmt.Sprint(d.facts))
		s := e.sem.(*RuneSem)
		for i, g := range d.segs {
			put(fmt.Sprintf("S%d", i), fmt.Sprint(g.one, g.min, s.rc.describe(g.cls)))
		}
		return
	}
	put("T cur", fmt.Sprint(d.cur, len(d.items)))
	put("T raw", fmt.Sprint(d.rawLo, d.rawHi, d.rawOK))
	put("T specPos", fmt.Sprint(d.specPos))
	put("T flags", fmt.Sprint(d.corrupt, d.dead, d.ntFail))
	s := e.sem.(*TokSem)
	for i := range d.items {
		it := &d.items[i]
		put(fmt.Sprintf("I%d flags", i), fmt.Sprintf("%c part=%v errd=%v cut=%v known=%v nt=%s", it.kind, it.part, it.errd, it.cut, it.known, it.nt))
		put(fmt.Sprintf("I%d cls", i), s.lx.describe(it.cls))
		put(fmt.Sprintf("I%d nlgap", i), fmt.Sprint(it.nl, it.gap))
	}
	var nodes []string
	for i, c := range d.cfgs {
		nodes = append(nodes, fmt.Sprint(c.node))
		put(fmt.Sprintf("C%d lost", i), c.lost)
		for _, f := range c.regs {
			put(fmt.Sprintf("C%d %s", i, f.Name), encStr(f.V))
		}
	}
	put("C nodes", strings.Join(nodes, " "))
	put("noMid", fmt.Sprint(len(d.noMid)))
}

func (p *profiler) print() {
	var ks []string
	for k := range p.pts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return p.n[ks[i]] > p.n[ks[j]] })
	for i, k := range ks {
		if i > 9 {
			break
		}
		fmt.Printf("## %d states at %s\n", p.n[k], k)
		if i > 1 {
			continue
		}
		for _, sl := range sortedKeys(p.pts[k]) {
			m := p.pts[k][sl]
			if len(m) < 2 {
				continue
			}
			fmt.Printf("   %-50s %d values:", sl, len(m))
			n := 0
			for _, v := range sortedKeys(m) {
				if n++; n > 4 {
					break
				}
				if len(v) > 40 {
					v = v[:40]
				}
				fmt.Printf(" [%s]x%d", strings.ReplaceAll(v, "\n", " "), m[sortedKeys(m)[n-1]])
			}
			fmt.Println()
		}
	}
	os.Stdout.Sync()
}

func maxNodes() int {
	n := 60000
	if s := os.Getenv("VERIF_MAX"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}

// summary is a one-line description of the token part of a state.
func (p *profiler) summary(e *Engine, st *State) string {
	d := st.dom.(*TokDom)
	s := e.sem.(*TokSem)
	r := fmt.Sprintf("cur=%d raw=%d-%d spec=%d |", d.cur, d.rawLo, d.rawHi, d.specPos)
	for i := range d.items {
		it := &d.items[i]
		r += fmt.Sprintf(" %c", it.kind)
		if it.kind == 'L' {
			r += ":" + s.lx.describe(it.cls)
		}
		r += it.nt
		if it.gap {
			r += "~"
		}
		r += []string{"", "=", "/"}[it.nl]
		if it.known {
			r += "k"
		}
	}
	for _, c := range d.cfgs {
		r += fmt.Sprintf(" || %d", c.node)
		for _, f := range c.regs {
			r += " " + f.Name + "=" + encStr(f.V)
		}
	}
	r += " ##"
	for i := e.nbase; i < len(st.heap); i++ {
		x := encStr(st.heap[i])
		if len(x) > 60 {
			x = x[:60]
		}
		r += " " + x
	}
	return strings.ReplaceAll(r, "\n", " ")
}

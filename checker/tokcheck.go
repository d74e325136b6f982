package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// The exploration of the element parsers is spread over processes: one for
// every element and configuration.

type tokFinding struct {
	Cat, Where, Func, Msg, NT string
	Trace                     []string
}

type tokOut struct {
	NT, Cfg                                              string
	Roots, States, Returns, Commits, Folds, Edges, Depth int
	Funcs, Missing, NTs                                  []string
	Findings                                             []tokFinding
}

// tokMain explores one element in one configuration and prints the result.
func tokMain(repo, cfg, nt string) {
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		os.Exit(2)
	}
	os.Setenv("VERIF_CFG", cfg)
	r := analyseTokens(p, newLex(p), nt)
	o := tokOut{NT: nt, Cfg: cfg, Roots: r.Roots, States: r.States, Returns: r.Returns, Commits: r.Commits, Folds: r.Folds, Edges: r.Edges, Missing: r.Missing, NTs: r.Names}
	for f := range r.Funcs {
		o.Funcs = append(o.Funcs, f.String())
	}
	sort.Strings(o.Funcs)
	for _, k := range sortedKeys(r.Findings) {
		for _, f := range r.Findings[k] {
			o.Findings = append(o.Findings, tokFinding{f.Cat, p.posStr(f.Pos), p.funcAt(f), f.Msg, f.Root, f.Trace})
		}
	}
	json.NewEncoder(os.Stdout).Encode(o)
}

// slowFirst are the elements that take longest.
var slowFirst = map[string]int{"GroupField": 0, "Message": 1, "Declaration": 2, "Proto": 3, "Oneof": 4}

// tokens runs the whole exploration.
func tokens(p *Program, tier string) ([]*tokOut, error) {
	names := map[string]bool{}
	missing := []string{}
	s, miss := newTokSem(p, newLex(p))
	missing = append(append(missing, miss...), s.findNTs()...)
	for _, fn := range s.ntFns() {
		names[s.nts[fn].name] = true
	}
	if len(names) == 0 {
		return []*tokOut{{Missing: missing}}, nil
	}
	type job struct{ nt, cfg string }
	var jobs []job
	for n := range names {
		for _, c := range []string{"truefalse", "falsefalse", "truetrue", "falsetrue"} {
			jobs = append(jobs, job{n, c})
		}
	}
	rank := func(n string) int {
		if k, ok := slowFirst[n]; ok {
			return k
		}
		return 9
	}
	sort.Slice(jobs, func(i, j int) bool {
		a, b := jobs[i], jobs[j]
		if rank(a.nt) != rank(b.nt) {
			return rank(a.nt) < rank(b.nt)
		}
		if a.nt != b.nt {
			return a.nt < b.nt
		}
		return a.cfg > b.cfg
	})
	// a check has to answer within 900 seconds
	deadline := begun.Add(560 * time.Second)
	if !time.Now().Before(deadline.Add(-100 * time.Second)) {
		deadline = begun.Add(800 * time.Second) // the second exploration of the check
	}
	outs := make([]*tokOut, len(jobs))
	errs := make([]error, len(jobs))
	next := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(jobs) {
					return
				}
				cmd := exec.Command("/proc/self/exe", "tok", p.dir, jobs[i].cfg, jobs[i].nt)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", fmt.Sprintf("VERIF_DEADLINE=%d", deadline.Unix()))
				if rank(jobs[i].nt) < 9 {
					cmd.Env = append(cmd.Env, "VERIF_MAX=400000")
				}
				var eb strings.Builder
				cmd.Stderr = &eb
				b, err := cmd.Output()
				if err != nil {
					e := eb.String()
					if len(e) > 500 {
						e = e[:500]
					}
					outs[i] = &tokOut{NT: jobs[i].nt, Cfg: jobs[i].cfg, Missing: []string{fmt.Sprintf("the exploration of %s ended early: %v %s", jobs[i].nt, err, e)}}
					continue
				}
				o := &tokOut{}
				if err := json.Unmarshal(b, o); err != nil {
					errs[i] = err
					continue
				}
				outs[i] = o
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	if len(missing) > 0 {
		outs = append(outs, &tokOut{Missing: missing})
	}
	return outs, nil
}

func (f *tokFinding) finding(cfg string) *Finding {
	return &Finding{Cat: f.Cat, Msg: f.Msg, Trace: f.Trace, Root: f.NT, Where: f.Where, Func: f.Func}
}

var tokAssume = []string{
	"scanner.Scan, UnScan, LastScanRaw, SetLastScanRaw and FindMidComments deliver tokens, put back and collect as C17-C21 and C09 demand (decided separately)",
	"a call of another element's parser behaves as that element's own specification says; that is the obligation decided for that parser in the same run",
}

// tokReport collects what the exploration says about a property.
func tokReport(p *Program, tier, rule string, keep func(o *tokOut, f *tokFinding) bool) (*Report, error) {
	outs, err := tokens(p, tier)
	if err != nil {
		return nil, err
	}
	return tokReportOf(outs, rule, keep), nil
}

func tokReportOf(outs []*tokOut, rule string, keep func(o *tokOut, f *tokFinding) bool) *Report {
	r := &Report{Rule: rule, Assume: tokAssume}
	funcs := map[string]bool{}
	miss := map[string]bool{}
	roots := map[string]bool{}
	states, returns, commits, folds, edges := 0, 0, 0, 0, 0
	for _, o := range outs {
		for i := range o.Findings {
			f := &o.Findings[i]
			if f.Cat == "undecided" {
				r.Undecided = append(r.Undecided, f.finding(o.Cfg))
			} else if keep(o, f) {
				r.Findings = append(r.Findings, f.finding(o.Cfg))
			}
		}
		for _, f := range o.Funcs {
			funcs[f] = true
		}
		for _, m := range o.Missing {
			miss[m] = true
		}
		if o.Roots > 0 {
			roots[o.NT+" "+o.Cfg] = true
		}
		states += o.States
		returns += o.Returns
		commits += o.Commits
		folds += o.Folds
		if o.Edges > edges {
			edges = o.Edges
		}
	}
	for _, m := range sortedKeys(miss) {
		r.Undecided = append(r.Undecided, &Finding{Cat: "undecided", Msg: m, Where: "-", Func: "-"})
	}
	r.cover("element_parsers_times_configurations", len(roots))
	r.cover("functions_analysed", sortedKeys(funcs))
	r.cover("abstract_states", states)
	r.cover("returns_judged", returns)
	r.cover("lexemes_matched_against_the_grammar", commits)
	r.cover("list_and_text_agreements", folds)
	r.cover("grammar_transitions", edges)
	return r
}

// cats selects findings by category.
func cats(cs ...string) func(*tokOut, *tokFinding) bool {
	return func(_ *tokOut, f *tokFinding) bool {
		for _, c := range cs {
			if f.Cat == c {
				return true
			}
		}
		return false
	}
}

const tokRule = "Every element parser is interpreted abstractly, in the four configurations, against a specification automaton of its grammar rule; tokens are sets of lexical classes, loops are closed by folding what code and specification agree on. "

func tokCheck(id, rule string, cs ...string) {
	checks[id] = Check{"other", func(p *Program, tier string) (*Report, error) {
		return tokReport(p, tier, tokRule+rule, cats(cs...))
	}}
}

func init() {
	tokCheck("C01", "Every return without an error is reached with the consumed tokens forming a sentence of the rule.", "C01")
	tokCheck("C02", "Every return with an error is reached with tokens that no sentence of the rule begins with; every return without an error is reached only where the sentence cannot go on.", "C02")
	tokCheck("C03", "At every return without an error the names, types, numbers, labels and flags of the result equal the specification's, as symbolic source texts.", "C03")
	tokCheck("C04", "At every return without an error the option names and constants of the result equal the specification's, as symbolic source texts.", "C04")
	tokCheck("C05", "At every return without an error the bodies of the result equal the specification's, element by element.", "C05")
	tokCheck("C06", "At every return without an error the first and last positions of the result are those of the lexemes the specification names.", "C06")
	tokCheck("C07", "At every return without an error every comment consumed is where the specification puts leading comments.", "C07")
	tokCheck("C08", "At every return without an error every same-line comment is where the specification puts inline comments.", "C08")
	tokCheck("C10", "At every return with an error the result is nil and the error is positioned no later than the offending token.", "C10")
	tokCheck("C15", "Text is put back only if it is the last text read, reading never goes on at an unknown place, and what is looked at is delivered again.", "C15")
	tokCheck("C16", "Every element parser is entered and left with the default scanning mode, and no word is refused where the rule has an identifier.", "C16")
	// TOK shows every finding of the exploration at once (no property of its own)
	checks["TOK"] = Check{"other", func(p *Program, tier string) (*Report, error) {
		return tokReport(p, tier, tokRule, func(*tokOut, *tokFinding) bool { return true })
	}}
	checks["C11"] = Check{"other", func(p *Program, tier string) (*Report, error) {
		outs, err := tokens(p, tier)
		if err != nil {
			return nil, err
		}
		in := map[string]map[bool]bool{}
		place := func(f *tokFinding) string { return f.Cat + " " + f.Where }
		for _, o := range outs {
			perm := strings.HasPrefix(o.Cfg, "true")
			for i := range o.Findings {
				k := place(&o.Findings[i])
				if in[k] == nil {
					in[k] = map[bool]bool{}
				}
				in[k][perm] = true
			}
		}
		return tokReportOf(outs, tokRule+"A sentence is accepted or refused against the grammar of the mode in one mode only.", func(o *tokOut, f *tokFinding) bool {
			return (f.Cat == "C01" || f.Cat == "C02") && len(in[place(f)]) == 1
		}), nil
	}}
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report is what a check found.
// begun is when the check has begun.
var begun = time.Now()

type Report struct {
	Rule      string
	Findings  []*Finding
	Undecided []*Finding
	Coverage  map[string]interface{}
	Notes     []string
	Explain   string
	Assume    []string
}

func (r *Report) cover(k string, v interface{}) {
	if r.Coverage == nil {
		r.Coverage = map[string]interface{}{}
	}
	r.Coverage[k] = v
}

// add sorts a finding of an engine into the report.
func (r *Report) add(fs ...*Finding) {
	for _, f := range fs {
		if f.Cat == "undecided" {
			r.Undecided = append(r.Undecided, f)
		} else {
			r.Findings = append(r.Findings, f)
		}
	}
}

// Check decides a property.
type Check struct {
	level string
	run   func(p *Program, tier string) (*Report, error)
}

var checks = map[string]Check{}

// rootDir is the directory of the framework.
var rootDir = "/verif"

func main() {
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "opt" {
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR", err)
			os.Exit(2)
		}
		fs, und, c := checkOptions(p)
		if len(os.Args) > 3 {
			fs, und, c = checkMid(p)
		}
		for _, f := range append(fs, und...) {
			fmt.Println(f.Cat, p.posStr(f.Pos), f.Msg)
		}
		fmt.Println(c)
		return
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 4 && (os.Args[1] == "tok" || os.Args[1] == "rune") {
		// up to eight of these run at a time
		memLimit = 3300
		debug.SetMemoryLimit(2800 << 20)
	}
	if len(os.Args) > 4 && os.Args[1] == "tok" {
		tokMain(os.Args[2], os.Args[3], os.Args[4])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "rune" {
		from, _ := strconv.Atoi(os.Args[3])
		step, _ := strconv.Atoi(os.Args[4])
		runeMain(os.Args[2], from, step)
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker <property>")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		rootDir = d
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		os.Exit(2)
	}
	start := time.Now()
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		os.Exit(2)
	}
	r, err := c.run(p, tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		os.Exit(2)
	}
	os.Exit(finish(p, id, tier, c, r, time.Since(start)))
}

// known lists the findings recorded in known-findings.txt: "known: property=<id> <construct>: <what>".
func known(id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(rootDir, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			m[strings.TrimSpace(rest)] = true
		}
	}
	return m
}

func (p *Program) funcAt(f *Finding) string {
	if f.Func != "" {
		return f.Func
	}
	for _, fn := range p.fns {
		if s := fn.Syntax(); s != nil && f.Pos.IsValid() && s.Pos() <= f.Pos && f.Pos <= s.End() {
			return strings.TrimPrefix(fn.RelString(nil), modPath+"/")
		}
	}
	return "-"
}

func (p *Program) whereOf(f *Finding) string {
	if f.Where != "" {
		return f.Where
	}
	return p.posStr(f.Pos)
}

func finish(p *Program, id, tier string, c Check, r *Report, wall time.Duration) int {
	kn := known(id)
	violations := 0
	type vio struct {
		Where, Function, What, Root string
		Trace                       []string `json:",omitempty"`
	}
	var vs []vio
	seen := map[string]bool{}
	for _, f := range r.Findings {
		fn := p.funcAt(f)
		key := fn + ": " + f.Msg
		if kn[key] {
			if !seen["K"+key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, key)
			}
			seen["K"+key] = true
			continue
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		violations++
		var tr []string
		for i := len(f.Trace) - 1; i >= 0; i-- {
			tr = append(tr, f.Trace[i])
		}
		vs = append(vs, vio{p.whereOf(f), fn, f.Msg, f.Root, tr})
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": 1, "level": c.level, "wall_s": wall.Seconds(), "violations": violations,
	}
	cov := map[string]interface{}{}
	for k, v := range r.Coverage {
		cov[k] = v
	}
	cov["source_functions_loaded"] = len(p.fns)
	if b, err := exec.Command("git", "-C", p.dir, "rev-parse", "HEAD").Output(); err == nil {
		cov["analysed_commit"] = strings.TrimSpace(string(b))
	}
	var und []string
	useen := map[string]bool{}
	for _, f := range r.Undecided {
		s := fmt.Sprintf("%s (%s): %s", p.whereOf(f), p.funcAt(f), f.Msg)
		if !useen[s] {
			useen[s] = true
			und = append(und, s)
		}
	}
	sort.Strings(und)
	cov["undecided"] = und
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	text := r.Rule
	if r.Explain != "" {
		text += "  " + r.Explain
	}
	cov["explanation"] = text
	ev["coverage"] = cov
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	outDir := filepath.Join(rootDir, "evidence")
	if d := os.Getenv("VERIF_OUT"); d != "" {
		outDir = d
	}
	os.MkdirAll(outDir, 0o755)
	if err := os.WriteFile(filepath.Join(outDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	for i, u := range und {
		if i == 25 {
			fmt.Println("UNDECIDED", len(und)-i, "more, see the evidence file")
			break
		}
		fmt.Println("UNDECIDED", u)
	}
	if violations == 0 {
		fmt.Printf("OK property=%s (%d undecided, %.1fs)\n", id, len(und), wall.Seconds())
		return 0
	}
	replay := filepath.Join(outDir, id+".violations.json")
	vb, _ := json.MarshalIndent(vs, "", " ")
	os.WriteFile(replay, append(vb, '\n'), 0o644)
	for _, v := range vs {
		fmt.Printf("%s %s: %s\n", v.Where, v.Function, v.What)
		if os.Getenv("VERIF_TRACE") != "" {
			for _, t := range v.Trace {
				fmt.Println("     ", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func debugMain(args []string) {
	p, err := loadProgram("/repo")
	if err != nil {
		panic(err)
	}
	lx := newLex(p)
	only := ""
	if len(args) > 0 {
		only = args[0]
	}
	debugStates = os.Getenv("VERIF_STATES") != ""
	r := analyseTokens(p, lx, only)
	fmt.Println("missing", r.Missing, "roots", r.Roots, "states", r.States, "returns", r.Returns, "commits", r.Commits, "folds", r.Folds)
	for _, cfg := range sortedKeys(r.Findings) {
		fmt.Println("==", cfg)
		for _, f := range r.Findings[cfg] {
			fmt.Printf("%s %s: %s [%s]\n", f.Cat, p.posStr(f.Pos), f.Msg, f.Root)
			if os.Getenv("VERIF_TRACE") != "" {
				for i := len(f.Trace) - 1; i >= 0; i-- {
					fmt.Println("     ", f.Trace[i])
				}
			}
		}
	}
}

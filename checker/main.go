package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one reported violation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"` // stable identity: function and construct, not line
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

// Report collects what one check did.
type Report struct {
	Prop        string
	Findings    map[string]Finding
	Obligations int
	Discharged  int
	Functions   map[string]bool
	Sites       int
	States      int
	Steps       int
	Notes       []string
	Samples     []string
	Min         map[string][2]int // instance counts: name -> have, want
	Details     map[string]any
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Findings: map[string]Finding{}, Functions: map[string]bool{}, Min: map[string][2]int{}, Details: map[string]any{}}
}

func (r *Report) fail(rule, construct, pos, msg string, path []string) {
	k := rule + "|" + construct
	if old, ok := r.Findings[k]; ok && (len(old.Path) <= len(path) || len(path) == 0) {
		return
	}
	r.Findings[k] = Finding{rule, construct, pos, msg, path}
}

// need records an instance count that must not fall below what was confirmed by hand.
func (r *Report) need(name string, have, want int) {
	r.Min[name] = [2]int{have, want}
	if have < want {
		r.fail("instances", name, "-", fmt.Sprintf("%s: found %d, expected at least %d: the rule no longer matches the code", name, have, want), nil)
	}
}

// ob records one obligation and whether it was discharged.
func (r *Report) ob(ok bool) {
	r.Obligations++
	if ok {
		r.Discharged++
	}
}

func (r *Report) sample(format string, a ...any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

type Check struct {
	Rule        string // one line: the rule applied
	Run         func(p *Program, r *Report)
	Assumptions []string
}

var checks = map[string]*Check{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pdfcheck ID [tier]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier == "" {
		tier = "quick"
	}
	if id == "dump" {
		dump(os.Args[2:])
		return
	}
	var ids []string
	if id == "all" {
		ids = sortedKeys(checks)
	} else {
		if checks[id] == nil {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		ids = []string{id}
	}
	start := time.Now()
	p, err := loadProgram()
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		if c := runOne(p, err, id, tier, start); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func runOne(p *Program, loadErr error, id, tier string, start time.Time) int {
	c := checks[id]
	r := newReport(id)
	if loadErr != nil {
		r.fail("load", "program", "-", "the program could not be loaded: "+loadErr.Error(), nil)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(e)
					}
					r.fail("analysis", "panic", "-", fmt.Sprintf("the analysis could not be completed: %v", e), nil)
				}
			}()
			c.Run(p, r)
		}()
		if r.Obligations == 0 {
			r.fail("instances", "obligations", "-", "no obligation was generated: the rule no longer matches the code", nil)
		}
	}
	known := knownFindings(id)
	var keys []string
	for k := range r.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol []Finding
	for _, k := range keys {
		f := r.Findings[k]
		if known[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, f.Pos, f.Construct, f.Msg)
			continue
		}
		viol = append(viol, f)
	}
	verif := verifDir()
	writeEvidence(verif, id, tier, c, r, len(viol), time.Since(start).Seconds())
	replay := filepath.Join(verif, "evidence", id+".violation.json")
	if len(viol) > 0 {
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, b, 0644)
		for _, f := range viol {
			fmt.Printf("%s: %s: [%s] %s: %s\n", f.Pos, f.Construct, f.Rule, id, f.Msg)
			for _, s := range f.Path {
				fmt.Printf("      %s\n", s)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	os.Remove(replay)
	fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs\n", id, r.Obligations, r.Discharged, len(r.Functions), time.Since(start).Seconds())
	return 0
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads known-findings.txt: "known: property=<id> key=<rule|construct> <what fails>".
func knownFindings(id string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=\"")
		if !ok {
			continue
		}
		if k, _, ok := strings.Cut(rest, "\""); ok {
			out[k] = true
		}
	}
	return out
}

func writeEvidence(verif, id, tier string, c *Check, r *Report, viol int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static analysis of the type-checked SSA form of the current tree. Rule: %s. %d obligations generated from the source, %d discharged, over %d functions.",
			c.Rule, r.Obligations, r.Discharged, len(fns)),
		"obligations":        r.Obligations,
		"discharged":         r.Discharged,
		"functions_analysed": fns,
		"rule":               c.Rule,
		"samples":            r.Samples,
	}
	if r.States > 0 {
		cov["abstract_states"] = r.States
		cov["abstract_steps"] = r.Steps
	}
	if r.Sites > 0 {
		cov["sites"] = r.Sites
	}
	if len(r.Min) > 0 {
		m := map[string]any{}
		for k, v := range r.Min {
			m[k] = map[string]int{"found": v[0], "expected_at_least": v[1]}
		}
		cov["instance_counts"] = m
	}
	for k, v := range r.Details {
		cov[k] = v
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{"the Go standard library behaves as documented (modelled by name)", "no use of reflect, unsafe or cgo in the analysed packages (checked by C07)"}, c.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644)
}

func dump(names []string) {
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, f := range p.Funcs {
		for _, n := range names {
			if fnName(f) == n || n == "*" {
				f.WriteTo(os.Stdout)
			}
		}
	}
}

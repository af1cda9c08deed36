package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Key   string   // rule + construct: stable across edits elsewhere
	Msg   string   // the rule and what is wrong
	Where string   // file:line
	Trace []string // path
}

// Report collects what one check analysed and found.
type Report struct {
	ID          string
	Rules       []string
	Counts      map[string]int
	Samples     []string
	Findings    []Finding
	Assume      []string
	obligations int
	discharged  int
	seen        map[string]bool
	min         map[string]int
}

func newReport(id string) *Report {
	return &Report{ID: id, Counts: map[string]int{}, seen: map[string]bool{}, min: map[string]int{}}
}

func (r *Report) rule(f string, a ...any)   { r.Rules = append(r.Rules, fmt.Sprintf(f, a...)) }
func (r *Report) assume(f string, a ...any) { r.Assume = append(r.Assume, fmt.Sprintf(f, a...)) }
func (r *Report) count(k string, n int)     { r.Counts[k] += n }
func (r *Report) sample(f string, a ...any) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

// atLeast: fewer than n instances of k mean that the rule lost its subject.
func (r *Report) atLeast(k string, n int) { r.min[k] = n }

// ok records a discharged obligation.
func (r *Report) ok(f string, a ...any) {
	r.obligations++
	r.discharged++
	if f != "" {
		r.sample(f, a...)
	}
}

// fail records an obligation that does not hold.
func (r *Report) fail(key, where string, trace []string, f string, a ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.obligations++
	r.Findings = append(r.Findings, Finding{Key: key, Msg: fmt.Sprintf(f, a...), Where: where, Trace: trace})
}

// check is ok or fail.
func (r *Report) check(cond bool, key, where string, f string, a ...any) {
	if cond {
		r.ok("%s: "+f, append([]any{where}, a...)...)
	} else {
		r.fail(key, where, nil, f, a...)
	}
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type knownFinding struct{ property, key, text string }

func loadKnown(path string) []knownFinding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, ln := range strings.Split(string(data), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known:") {
			continue
		}
		// known: property=<id> key=<key> | text
		rest := strings.TrimSpace(strings.TrimPrefix(ln, "known:"))
		head, text, _ := strings.Cut(rest, " | ")
		id, key, ok := strings.Cut(head, " key=")
		if !ok {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(strings.TrimSpace(id), "property="), strings.TrimSpace(key), text})
	}
	return out
}

// finish writes the evidence file, prints the findings and returns the exit code.
func (r *Report) finish(p *Program, verif string, start time.Time) int {
	for k, n := range r.min {
		if r.Counts[k] < n {
			r.fail("instances:"+k, "-", nil, "the rule found %d instances of %q, at least %d were confirmed by reading: it no longer sees its subject", r.Counts[k], k, n)
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var bad []Finding
	for _, f := range r.Findings {
		isKnown := false
		for _, k := range known {
			if k.property == r.ID && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", r.ID, f.Key, f.Where, k.text)
				isKnown = true
			}
		}
		if !isKnown {
			bad = append(bad, f)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"explanation": fmt.Sprintf("static analysis of %s (SSA form, %d files, %d lines, %d functions); rules: %s",
			"the current source tree", files(p), lines(p), funcs(p), strings.Join(r.Rules, " || ")),
		"obligations": r.obligations,
		"discharged":  r.discharged,
		"rules":       r.Rules,
		"samples":     r.Samples,
	}
	cnt := map[string]int{}
	for k, v := range r.Counts {
		cnt[k] = v
	}
	cov["counts"] = cnt
	if len(r.Findings) > 0 {
		var fs []map[string]any
		for _, f := range r.Findings {
			fs = append(fs, map[string]any{"key": f.Key, "where": f.Where, "message": f.Msg, "trace": f.Trace})
		}
		cov["findings"] = fs
	}
	ev := evidence{Property: r.ID, Tier: tier, Seed: seed, Level: "other", Coverage: cov, Assumptions: r.Assume,
		WallS: float64(int(time.Since(start).Seconds()*1000)) / 1000, Violations: len(bad)}
	data, _ := json.MarshalIndent(ev, "", " ")
	evpath := filepath.Join(evdir, r.ID+".json")
	if err := os.WriteFile(evpath, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d findings (%.1fs)\n", r.ID, r.obligations, r.discharged, len(bad), time.Since(start).Seconds())
	if len(bad) == 0 {
		return 0
	}
	for _, f := range bad {
		fmt.Printf("  [%s] %s: %s\n", f.Key, f.Where, f.Msg)
		for _, t := range f.Trace {
			fmt.Printf("      %s\n", t)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n", r.ID, r.ID)
	return 1
}

func files(p *Program) int {
	if p == nil {
		return 0
	}
	return p.files
}
func lines(p *Program) int {
	if p == nil {
		return 0
	}
	return p.lines
}
func funcs(p *Program) int {
	if p == nil {
		return 0
	}
	return len(p.Funcs)
}

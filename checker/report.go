package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects what a check analysed and found.
type Report struct {
	ID         string
	P          *Program
	Rule       string // explanation of the deciding rules
	Assume     []string
	violations []Violation
	vkeys      map[string]bool
	touched    map[string]bool
	opaque     map[string]bool
	oblig      map[string]int // obligation rule -> discharged instances
	Counts     map[string]int
	States     int
	Steps      int
	start      time.Time
	entries    []string
	samples    []string
}

func NewReport(id string, p *Program) *Report {
	return &Report{ID: id, P: p, vkeys: map[string]bool{}, touched: map[string]bool{}, opaque: map[string]bool{},
		oblig: map[string]int{}, Counts: map[string]int{}, start: time.Now()}
}

func (r *Report) Touch(fn *ssa.Function) {
	if r.P != nil && r.P.IsRepo(fn) {
		r.touched[fn.String()] = true
	}
}

func (r *Report) Opaque(n string) { r.opaque[n] = true }

// OK counts a discharged obligation.
func (r *Report) OK(rule string) { r.oblig[rule]++ }

func (r *Report) Violate(rule string, pos token.Position, trace []string, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	k := rule
	if r.vkeys[k] {
		return
	}
	r.vkeys[k] = true
	r.violations = append(r.violations, Violation{Rule: rule, Msg: msg, Pos: pos, Trace: trace})
}

func (r *Report) ViolateAt(rule string, pos token.Pos, format string, args ...any) {
	var p token.Position
	if r.P != nil {
		p = r.P.Fset.Position(pos)
	}
	r.Violate(rule, p, nil, format, args...)
}

// firstOf runs an argument with each choice of its free parameter; one that discharges every
// obligation is enough.
func (r *Report) firstOf(f func(r *Report, choice bool)) {
	var first *Report
	for _, c := range []bool{true, false} {
		n := NewReport(r.ID, r.P)
		f(n, c)
		if len(n.violations) == 0 || !c {
			if len(n.violations) > 0 {
				n = first
			}
			r.merge(n)
			return
		}
		first = n
	}
}

func (r *Report) merge(n *Report) {
	for _, v := range n.violations {
		if !r.vkeys[v.Rule] {
			r.vkeys[v.Rule] = true
			r.violations = append(r.violations, v)
		}
	}
	for k := range n.touched {
		r.touched[k] = true
	}
	for k := range n.opaque {
		r.opaque[k] = true
	}
	for k, v := range n.oblig {
		r.oblig[k] += v
	}
	for k, v := range n.Counts {
		r.Counts[k] += v
	}
	r.States += n.States
	r.Steps += n.Steps
	r.entries = append(r.entries, n.entries...)
	r.samples = append(r.samples, n.samples...)
}

// AtLeast fails the check when fewer instances than confirmed by reading were analysed.
func (r *Report) AtLeast(what string, n int) {
	if r.oblig[what] < n {
		r.Violate("count:"+what, token.Position{}, nil, "only %d instances of %q were analysed; at least %d expected", r.oblig[what], what, n)
	}
}

type known struct {
	prop, rule, text string
}

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID rule=KEY | text
		l = strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(l, " | ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(parts[0], "property="), " rule=", 2)
		if len(f) != 2 {
			continue
		}
		out = append(out, known{f[0], strings.TrimSpace(f[1]), parts[1]})
	}
	return out
}

// Finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) Finish(root string) int {
	kn := loadKnown(filepath.Join(root, "known-findings.txt"))
	var fresh []Violation
	nk := 0
	for _, v := range r.violations {
		isKnown := false
		for _, k := range kn {
			if k.prop == r.ID && k.rule == v.Rule {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.text)
				nk++
				break
			}
		}
		if !isKnown {
			fresh = append(fresh, v)
		}
	}
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rules []string
	for k, n := range r.oblig {
		rules = append(rules, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(rules)
	samples := r.samples
	if len(samples) == 0 {
		for i, s := range rules {
			if i >= 5 {
				break
			}
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"explanation":            r.Rule,
		"obligations_by_rule":    rules,
		"obligations":            total + len(r.violations),
		"discharged":             total,
		"functions_analysed":     sortedStrings(r.touched),
		"functions":              len(r.touched),
		"entry_points":           r.entries,
		"abstract_states":        r.States,
		"abstract_steps":         r.Steps,
		"callees_treated_opaque": sortedStrings(r.opaque),
		"known_findings":         nk,
		"samples":                samples,
	}
	for k, v := range r.Counts {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d states=%d\n", r.ID, total, len(r.touched), r.States)
		return 0
	}
	rp := filepath.Join(root, "evidence", r.ID+".violations.txt")
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "rule %s at %s:%d\n  %s\n", v.Rule, v.Pos.Filename, v.Pos.Line, v.Msg)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, v := range fresh {
		fn := v.Pos.Filename
		if r.P != nil {
			fn = r.P.rel(fn)
		}
		fmt.Printf("  [%s] %s:%d: %s\n", v.Rule, fn, v.Pos.Line, v.Msg)
		for i, t := range v.Trace {
			if i >= len(v.Trace)-12 {
				fmt.Printf("      %s\n", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

var posZero token.Position

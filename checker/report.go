package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one instance of a rule: the rule and the construct it was
// evaluated on. The key never holds a line number, so that it stays the same
// when unrelated code moves.
type Obligation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Detail    string   `json:"detail,omitempty"`
	Failed    bool     `json:"failed,omitempty"`
	Undecided bool     `json:"undecided,omitempty"`
	Path      []string `json:"path,omitempty"`
	Times     int      `json:"times"`
}

type Report struct {
	p           *Program
	property    string
	tier        string
	seed        int
	start       time.Time
	obs         map[string]*Obligation
	order       []string
	needs       map[string]int
	rules       map[string]string
	stats       map[string]int
	funcs       map[string]bool
	explanation string
	assumptions []string
	outside     []string
}

func newReport(property string) *Report {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Report{
		property: property, tier: tier, seed: seed, start: time.Now(),
		obs: map[string]*Obligation{}, needs: map[string]int{}, rules: map[string]string{},
		stats: map[string]int{}, funcs: map[string]bool{},
	}
}

// rule declares a rule, its text, and how many instances must at least be
// found: a rule which matches nothing would hold vacuously.
func (r *Report) rule(name string, min int, text string) {
	r.rules[name] = text
	r.needs[name] = min
}

func (r *Report) ruleNames() []string {
	var out []string
	for n := range r.rules {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (r *Report) get(rule, construct string, pos token.Pos) *Obligation {
	k := rule + "\x00" + construct
	o := r.obs[k]
	if o == nil {
		o = &Obligation{Rule: rule, Construct: construct}
		if r.p != nil {
			o.Pos = r.p.pos(pos)
		}
		r.obs[k] = o
		r.order = append(r.order, k)
	}
	o.Times++
	return o
}

func (r *Report) ok(rule, construct string, pos token.Pos, detail string) {
	o := r.get(rule, construct, pos)
	if o.Detail == "" {
		o.Detail = detail
	}
}

func (r *Report) violation(rule, construct string, pos token.Pos, msg string, st *State) {
	o := r.get(rule, construct, pos)
	if o.Failed && !o.Undecided {
		// the shortest path is kept
		if st != nil {
			if p := r.path(st); len(o.Path) == 0 || len(p) < len(o.Path) {
				o.Path = p
				o.Detail = msg
				o.Pos = r.p.pos(pos)
			}
		}
		return
	}
	o.Failed, o.Undecided = true, false
	o.Detail = msg
	if r.p != nil {
		o.Pos = r.p.pos(pos)
	}
	o.Path = r.path(st)
}

func (r *Report) undecided(rule, construct string, pos token.Pos, msg string) {
	o := r.get(rule, construct, pos)
	if o.Failed {
		return
	}
	o.Failed, o.Undecided = true, true
	o.Detail = msg
	if r.p != nil {
		o.Pos = r.p.pos(pos)
	}
}

// check is ok or violation depending on cond.
func (r *Report) check(cond bool, rule, construct string, pos token.Pos, okMsg, badMsg string) {
	if cond {
		r.ok(rule, construct, pos, okMsg)
	} else {
		r.violation(rule, construct, pos, badMsg, nil)
	}
}

func (r *Report) path(st *State) []string {
	if st == nil {
		return nil
	}
	var out []string
	for n := st.trace; n != nil; n = n.prev {
		out = append(out, r.p.pos(n.pos)+": "+n.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 80 {
		out = append(append(append([]string{}, out[:10]...), "..."), out[len(out)-69:]...)
	}
	return out
}

// walked adds the measures of a walker.
func (r *Report) walked(w *Walker) {
	r.stats["instructions_interpreted"] += w.steps
	r.stats["abstract_states"] += w.states
	r.stats["call_events"] += w.callsN
	r.stats["path_exits"] += w.exits
	for fn := range w.fnSeen {
		r.funcs[fnName(fn)] = true
	}
}

type knownFinding struct{ rule, construct, text string }

// knownFindings reads the committed list of recorded defects. A line is
//
//	finding property=<id> rule=<rule> construct=<construct> | <text>
func knownFindings(dir, property string) ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding ") {
			continue
		}
		head, text, ok := strings.Cut(strings.TrimPrefix(line, "finding "), " | ")
		if !ok {
			return nil, fmt.Errorf("invalid known finding: %s", line)
		}
		var prop, rule string
		rest := head
		for _, f := range []struct {
			name string
			dst  *string
		}{{"property=", &prop}, {"rule=", &rule}} {
			if !strings.HasPrefix(rest, f.name) {
				return nil, fmt.Errorf("invalid known finding: %s", line)
			}
			v, tail, _ := strings.Cut(strings.TrimPrefix(rest, f.name), " ")
			*f.dst, rest = v, tail
		}
		if !strings.HasPrefix(rest, "construct=") {
			return nil, fmt.Errorf("invalid known finding: %s", line)
		}
		if prop == property {
			out = append(out, knownFinding{rule, strings.TrimPrefix(rest, "construct="), text})
		}
	}
	return out, nil
}

// finish prints the outcome, writes the evidence, and returns the exit code.
func (r *Report) finish(dir string) int {
	counts := map[string]int{}
	for _, k := range r.order {
		counts[r.obs[k].Rule]++
	}
	for rule, min := range r.needs {
		if counts[rule] < min {
			r.undecided("coverage", rule, token.NoPos, fmt.Sprintf("rule %q was evaluated on %d construct(s), at least %d are expected: the code it applies to was not recognised", rule, counts[rule], min))
		}
	}
	known, err := knownFindings(dir, r.property)
	if err != nil {
		r.undecided("known-findings", "known_findings.txt", token.NoPos, err.Error())
	}
	var bad, listed []*Obligation
	var texts []string
	used := map[int]bool{}
	for _, k := range r.order {
		o := r.obs[k]
		if !o.Failed {
			continue
		}
		match := -1
		for i, f := range known {
			if !o.Undecided && f.rule == o.Rule && f.construct == o.Construct {
				match = i
			}
		}
		if match >= 0 {
			used[match] = true
			listed = append(listed, o)
			texts = append(texts, known[match].text)
		} else {
			bad = append(bad, o)
		}
	}
	for i, o := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s, %s, %s)\n", r.property, texts[i], o.Rule, o.Construct, o.Pos)
	}
	ev := filepath.Join(dir, "evidence")
	if err := os.MkdirAll(ev, 0o755); err != nil {
		fmt.Println("cannot create the evidence directory:", err)
	}
	replay := filepath.Join(ev, r.property+".violation.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violated obligation(s)\n", r.property, len(bad))
		for _, o := range bad {
			word := "violated"
			if o.Undecided {
				word = "not decided"
			}
			fmt.Fprintf(&b, "\n%s: rule %s %s\n  construct: %s\n  %s\n", o.Pos, o.Rule, word, o.Construct, o.Detail)
			if t := r.rules[o.Rule]; t != "" {
				fmt.Fprintf(&b, "  rule text: %s\n", t)
			}
			if len(o.Path) > 0 {
				fmt.Fprintf(&b, "  path:\n")
				for _, l := range o.Path {
					fmt.Fprintf(&b, "    %s\n", l)
				}
			}
		}
		fmt.Fprintf(&b, "\nTo get this report again: bash /verif/check.sh %s\n", r.property)
		if err := os.WriteFile(replay, []byte(b.String()), 0o644); err != nil {
			fmt.Println("cannot write", replay, err)
		}
		fmt.Print(strings.ToValidUTF8(b.String(), "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.property, replay)
	}
	r.evidence(ev, counts, bad, listed)
	if len(bad) > 0 {
		return 1
	}
	fmt.Printf("%s: %d obligation(s) of %d rule(s) hold (%d known finding(s)), %d function(s) analysed\n",
		r.property, len(r.order)-len(listed), len(counts), len(listed), len(r.funcs))
	return 0
}

func (r *Report) evidence(dir string, counts map[string]int, bad, listed []*Obligation) {
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	obs := []*Obligation{}
	held := 0
	for _, k := range r.order {
		o := r.obs[k]
		if !o.Failed {
			held++
		}
		c := *o
		c.Path = nil
		obs = append(obs, &c)
	}
	cov := map[string]interface{}{
		"explanation":               r.explanation,
		"rules":                     r.rules,
		"obligations_total":         len(r.order),
		"obligations_held":          held,
		"obligations_by_rule":       counts,
		"functions_analysed":        fns,
		"functions_analysed_count":  len(fns),
		"samples":                   obs,
		"known_findings":            len(listed),
		"not_covered_by_this_check": r.outside,
	}
	if r.p != nil {
		cov["packages_loaded"] = len(r.p.pkgs)
		cov["functions_loaded"] = len(r.p.funcs)
	}
	for k, v := range r.stats {
		cov[k] = v
	}
	type viol struct {
		Rule, Construct, Pos, Detail string
	}
	var vs []viol
	for _, o := range bad {
		vs = append(vs, viol{o.Rule, o.Construct, o.Pos, o.Detail})
	}
	doc := map[string]interface{}{
		"property":    r.property,
		"tier":        r.tier,
		"seed":        r.seed,
		"level":       "other",
		"coverage":    cov,
		"wall_s":      time.Since(r.start).Seconds(),
		"assumptions": r.assumptions,
		"violations":  len(vs),
	}
	if len(vs) > 0 {
		cov["violated"] = vs
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, r.property+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write the evidence:", err)
	}
}

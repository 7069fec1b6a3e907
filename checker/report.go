package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Key  string // rule/construct: independent of line numbers
	Pos  string
	Msg  string
	Path []string
}

// Report collects the obligations of one property.
type Report struct {
	ID       string
	p        *Prog
	finds    map[string]*Finding
	order    []string
	oblig    int
	done     int
	rules    map[string]int
	samples  map[string][]string
	funcs    map[string]bool
	paths    int
	states   int
	loops    int
	events   int
	minimums map[string]int
	notes    []string
}

func newReport(p *Prog, id string) *Report {
	return &Report{ID: id, p: p, finds: map[string]*Finding{}, rules: map[string]int{}, samples: map[string][]string{}, funcs: map[string]bool{}, minimums: map[string]int{}}
}

// ok records a discharged obligation of a rule.
func (r *Report) ok(rule, what string) {
	r.oblig++
	r.done++
	r.rules[rule]++
	if s := r.samples[rule]; len(s) < 6 {
		for _, x := range s {
			if x == what {
				return
			}
		}
		r.samples[rule] = append(s, what)
	}
}

// bad records a violated (or undecided) obligation.
func (r *Report) bad(rule, construct, pos, msg string, path ...string) {
	r.oblig++
	r.rules[rule]++
	key := rule + "/" + construct
	if _, ok := r.finds[key]; ok {
		return
	}
	r.finds[key] = &Finding{Key: key, Pos: pos, Msg: msg, Path: path}
	r.order = append(r.order, key)
}

// check records the outcome of an obligation.
func (r *Report) check(cond bool, rule, construct, pos, msg string, path ...string) bool {
	if cond {
		r.ok(rule, construct)
	} else {
		r.bad(rule, construct, pos, msg, path...)
	}
	return cond
}

// need asks for at least n obligations of a rule: a rule that finds nothing to check proves nothing.
func (r *Report) need(rule string, n int) { r.minimums[rule] = n }

func (r *Report) saw(e *Exec) {
	r.paths += len(e.paths)
	r.states += e.states
	r.loops += len(e.insts)
	for _, pa := range e.paths {
		if pa.St.trace != nil {
			r.events += pa.St.trace.n
		}
	}
}

func (r *Report) fn(f *ssa.Function) {
	if f != nil {
		r.funcs[f.String()] = true
	}
}

// short names a function without the module path
func short(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}

func stackString(p *Prog, ev *Event) []string {
	var r []string
	for _, f := range ev.Stack {
		r = append(r, short(f.String()))
	}
	return r
}

// trail renders the events of a path for a diagnostic
func trail(p *Prog, st *State, max int) []string {
	var r []string
	evs := st.trace.Events()
	if len(evs) > max {
		evs = evs[len(evs)-max:]
	}
	for _, ev := range evs {
		if ev.Kind == "load" || ev.Kind == "now" {
			continue
		}
		s := p.pos(ev.Pos) + " " + ev.Kind
		if ev.Name != "" {
			s += " " + short(ev.Name)
		}
		if ev.Recv != nil && ev.Kind != "lock" && ev.Kind != "unlock" {
			s += " " + clip(ev.Recv.String(), 80)
		}
		for _, a := range ev.Args {
			if a != nil {
				s += " " + clip(a.String(), 60)
			}
		}
		r = append(r, s)
	}
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type knownFinding struct{ key, text string }

// loadKnown reads the known findings of a property: "known: property=<id> <key> | <what fails>"
func loadKnown(file, id string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "known: property=" + id + " "
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := strings.TrimPrefix(l, pre)
		parts := strings.SplitN(rest, " | ", 2)
		k := knownFinding{key: strings.TrimSpace(parts[0])}
		if len(parts) > 1 {
			k.text = parts[1]
		}
		r = append(r, k)
	}
	return r
}

func (r *Report) finish(out, tier string, seed int, start time.Time, assumptions []string, explanation string) int {
	for rule, n := range r.minimums {
		if r.rules[rule] < n {
			r.bad("coverage", rule, "", fmt.Sprintf("rule %s met %d constructs, at least %d expected: the rule lost its anchors", rule, r.rules[rule], n))
		}
	}
	known := loadKnown(filepath.Join(out, "known-findings.txt"), r.ID)
	var viol []*Finding
	for _, k := range r.order {
		f := r.finds[k]
		matched := false
		for _, kf := range known {
			if kf.key == k {
				matched = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, kf.text, k)
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	rules := map[string]interface{}{}
	var names []string
	for k := range r.rules {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		rules[k] = map[string]interface{}{"constructs": r.rules[k], "samples": r.samples[k]}
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, short(f))
	}
	sort.Strings(fs)
	cov := map[string]interface{}{
		"explanation":        explanation,
		"obligations":        r.oblig,
		"discharged":         r.done,
		"rules":              rules,
		"functions_analysed": fs,
		"paths":              r.paths,
		"abstract_states":    r.states,
		"loops_summarised":   r.loops,
		"trace_events":       r.events,
		"source_files":       r.p.files,
		"notes":              r.notes,
	}
	var vs []map[string]interface{}
	for _, f := range viol {
		vs = append(vs, map[string]interface{}{"key": f.Key, "pos": f.Pos, "msg": f.Msg})
	}
	if len(vs) > 0 {
		cov["violated"] = vs
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	writeJSON(filepath.Join(out, "evidence", r.ID+".json"), ev)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", r.ID, r.oblig, len(fs), r.paths)
		return 0
	}
	return writeViolations(out, r.ID, viol)
}

func writeJSON(file string, v interface{}) {
	_ = os.MkdirAll(filepath.Dir(file), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(file, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("evidence:", err)
	}
}

func writeViolations(out, id string, viol []*Finding) int {
	replay := filepath.Join(out, "evidence", id+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s\n  rule/construct: %s\n  %s\n", f.Pos, f.Key, f.Msg)
		for _, l := range f.Path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	for _, f := range viol {
		fmt.Printf("%s: %s: %s\n", f.Pos, f.Key, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

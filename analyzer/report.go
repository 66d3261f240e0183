package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one rule instance; Key identifies it by rule and construct, never by line.
type Obligation struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"`
	Where  string `json:"where"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

type Result struct {
	Prop        string
	Tier        string
	Obls        map[string]*Obligation
	Counts      map[string]int
	Notes       []string
	Explanation string
	Assumptions []string
	Start       time.Time
}

func newResult(prop, tier string) *Result {
	return &Result{Prop: prop, Tier: tier, Obls: map[string]*Obligation{}, Counts: map[string]int{}, Start: time.Now()}
}

// ok records an obligation as discharged (unless already violated).
func (r *Result) ok(rule, key, where string) {
	k := rule + "|" + key
	if r.Obls[k] == nil {
		r.Obls[k] = &Obligation{Rule: rule, Key: key, Where: where, OK: true}
	}
}

// fail records a violated obligation.
func (r *Result) fail(rule, key, where, detail string) {
	k := rule + "|" + key
	o := r.Obls[k]
	if o == nil || o.OK {
		r.Obls[k] = &Obligation{Rule: rule, Key: key, Where: where, OK: false, Detail: detail}
	}
}

// floor fails when fewer instances were found than confirmed by hand: no vacuous pass.
func (r *Result) floor(what string, got, min int) {
	r.Counts[what] = got
	if got < min {
		r.fail("instance-floor", what, "-", fmt.Sprintf("found %d instances of %s, expected at least %d: the rule no longer sees the code it was confirmed on", got, what, min))
	}
}

type finding struct {
	prop, key, text string
}

// known findings file: lines
//
//	finding: property=<id> key=<rule|construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadFindings(path string) []finding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(l, "::", 2)
		if len(parts) != 2 {
			continue
		}
		var fd finding
		fd.text = strings.TrimSpace(parts[1])
		head := strings.TrimSpace(parts[0])
		if i := strings.Index(head, "key="); i >= 0 {
			fd.key = strings.TrimSpace(head[i+4:])
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			if strings.HasPrefix(w, "property=") {
				fd.prop = strings.TrimPrefix(w, "property=")
			}
		}
		out = append(out, fd)
	}
	return out
}

// finish writes the evidence, prints the verdict and returns the exit code.
func (r *Result) finish(verif string, seed int) int {
	var keys []string
	for k := range r.Obls {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	finds := loadFindings(filepath.Join(verif, "known_findings.txt"))
	var bad, good []*Obligation
	var known []string
	for _, k := range keys {
		o := r.Obls[k]
		if o.OK {
			good = append(good, o)
			continue
		}
		isKnown := false
		for _, f := range finds {
			if f.prop == r.Prop && f.key == o.Rule+"|"+o.Key {
				known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s]", r.Prop, f.text, f.key))
				isKnown = true
				break
			}
		}
		if !isKnown {
			bad = append(bad, o)
		}
	}
	byRule := map[string]int{}
	for _, k := range keys {
		byRule[r.Obls[k].Rule]++
	}
	var samples []string
	seen := map[string]int{}
	for _, o := range good {
		if seen[o.Rule] < 4 {
			seen[o.Rule]++
			samples = append(samples, fmt.Sprintf("%s: %s (%s)", o.Rule, o.Key, o.Where))
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	cov := map[string]any{
		"explanation":         r.Explanation,
		"obligations":         len(keys),
		"discharged":          len(good),
		"known_findings":      len(known),
		"obligations_by_rule": byRule,
		"analysed":            r.Counts,
		"samples":             samples,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if len(bad) > 0 {
		cov["violations"] = bad
	}
	if r.Assumptions == nil {
		r.Assumptions = []string{}
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        r.Tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.Start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	rp := filepath.Join(evdir, r.Prop+".report.txt")
	os.Remove(rp)
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d\n", r.Prop, len(keys), len(good), len(known))
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s\n  construct: %s\n  at: %s\n  %s\n\n", o.Rule, o.Key, o.Where, o.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}

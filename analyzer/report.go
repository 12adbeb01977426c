package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obl is one obligation of a property: a rule applied to one construct.
type Obl struct {
	Rule string // rule name
	Key  string // stable identity: rule + construct, never a line
	Pos  string // file:line
	OK   bool
	Msg  string
}

type Report struct {
	Prop   string
	Obls   []Obl
	Counts map[string]int // measured: functions, call sites, ...
	Notes  []string
	Rule   string
	Trust  []string
}

func newReport(p string) *Report { return &Report{Prop: p, Counts: map[string]int{}} }

func (r *Report) add(rule, key, pos string, ok bool, msg string) {
	r.Obls = append(r.Obls, Obl{rule, rule + " " + key, pos, ok, msg})
}

func (r *Report) ok(rule, key, pos, msg string)   { r.add(rule, key, pos, true, msg) }
func (r *Report) fail(rule, key, pos, msg string) { r.add(rule, key, pos, false, msg) }

// floor demands a minimum number of instances of a rule, so that no rule passes vacuously.
func (r *Report) floor(rule string, min int) {
	n := 0
	for _, o := range r.Obls {
		if o.Rule == rule {
			n++
		}
	}
	if n < min {
		r.fail("instances", rule, "", fmt.Sprintf("rule %s matched %d constructs, fewer than the %d confirmed by reading; the anchors no longer resolve", rule, n, min))
	} else {
		r.ok("instances", rule, "", fmt.Sprintf("rule %s matched %d constructs (floor %d)", rule, n, min))
	}
}

func (r *Report) floorN(what string, n, min int) {
	r.add("instances", what, "", n >= min, fmt.Sprintf("%s: %d (floor %d)", what, n, min))
}

// knownFindings reads the committed list of recorded defects.
func knownFindings(path, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		ln := strings.TrimSpace(s.Text())
		if ln == "" || strings.HasPrefix(ln, "#") || strings.HasPrefix(ln, "fixed:") {
			continue
		}
		// known: property=P01 key=<key> :: description
		if !strings.HasPrefix(ln, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(ln, "known: property="+prop+" key=")
		k, d, _ := strings.Cut(rest, " :: ")
		out[strings.TrimSpace(k)] = strings.TrimSpace(d)
	}
	return out
}

func finish(r *Report, verif, tier string, start time.Time) int {
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), r.Prop)
	var viol []Obl
	seen := map[string]bool{}
	knownHit := map[string]Obl{}
	okN := 0
	rules := map[string]int{}
	for _, o := range r.Obls {
		rules[o.Rule]++
		if o.OK {
			okN++
			continue
		}
		if _, k := known[o.Key]; k {
			knownHit[o.Key] = o
			continue
		}
		id := o.Key + o.Msg
		if !seen[id] {
			seen[id] = true
			viol = append(viol, o)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	var kk []string
	for k := range knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", r.Prop, k, knownHit[k].Pos, known[k])
	}
	var samples []map[string]any
	perRule := map[string]int{}
	for _, o := range r.Obls {
		if perRule[o.Rule] >= 6 {
			continue
		}
		perRule[o.Rule]++
		samples = append(samples, map[string]any{"rule": o.Rule, "construct": o.Key, "at": o.Pos, "holds": o.OK, "detail": o.Msg})
	}
	cov := map[string]any{
		"explanation":  r.Rule,
		"obligations":  len(r.Obls),
		"discharged":   okN,
		"per_rule":     rules,
		"analysed":     r.Counts,
		"samples":      samples,
		"checker_cmd":  "bash /verif/check.sh " + r.Prop + " " + tier,
		"trusted_base": append([]string{"go/types and golang.org/x/tools/go/ssa v0.52.0", "the checker source in /verif/analyzer"}, r.Trust...),
	}
	if len(kk) > 0 {
		cov["known_findings"] = kk
	}
	if len(viol) > 0 {
		var vs []string
		for _, v := range viol {
			vs = append(vs, fmt.Sprintf("%s: [%s] %s: %s", v.Pos, v.Rule, v.Key, v.Msg))
		}
		cov["violating_constructs"] = vs
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol), "assumptions": r.Notes,
	}
	if r.Notes == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(viol) > 0 {
		rp := filepath.Join(evdir, r.Prop+".violation.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is violated. Replay: bash %s/check.sh %s %s\n\n", r.Prop, verif, r.Prop, tier)
		for _, v := range viol {
			fmt.Fprintf(&sb, "%s: rule %s\n  construct: %s\n  %s\n", v.Pos, v.Rule, v.Key, v.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
		return 1
	}
	os.Remove(filepath.Join(evdir, r.Prop+".violation.txt"))
	fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d (%.1fs)\n", r.Prop, len(r.Obls), okN, len(kk), time.Since(start).Seconds())
	return 0
}

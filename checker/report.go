package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one broken obligation. Key identifies it independently of line numbers.
type Violation struct {
	Rule, Construct, Pos, Msg string
}

func (v Violation) Key() string { return v.Rule + "|" + v.Construct }

// R collects what a check analysed and found.
type R struct {
	W          *World
	ID         string
	Obl        map[string]int // rule -> obligations examined
	Disch      map[string]int
	Undecided  map[string]int
	Info       map[string]any
	Violations []Violation
	Samples    []string
	Rules      map[string]string // rule -> description
	Assume     []string
	sampled    map[string]int
	Tier       string
}

func (r *R) Rule(id, desc string) { r.Rules[id] = desc }

// Ob records one obligation of a rule. ok=false makes it a violation.
func (r *R) Ob(rule, construct string, ok bool, pos, msg string) bool {
	r.Obl[rule]++
	if ok {
		r.Disch[rule]++
		if r.sampled[rule] < 3 {
			r.sampled[rule]++
			r.Samples = append(r.Samples, fmt.Sprintf("%s: %s at %s: holds", rule, construct, pos))
		}
	} else {
		r.Violations = append(r.Violations, Violation{rule, construct, pos, msg})
	}
	return ok
}

func (r *R) Bad(rule, construct, pos, msg string) { r.Ob(rule, construct, false, pos, msg) }

// Min fails the check when a rule matched fewer instances than confirmed by hand.
func (r *R) Min(rule string, n int) {
	if r.Obl[rule] < n {
		r.Violations = append(r.Violations, Violation{rule, "instance-count", "-", fmt.Sprintf("rule matched %d instances, at least %d were confirmed in the reference tree: the anchors of the rule cannot be found any more", r.Obl[rule], n)})
	}
}

// Need reports an unresolved anchor.
func (r *R) Need(ok bool, what string) bool {
	if !ok {
		r.Violations = append(r.Violations, Violation{"anchor", what, "-", "anchor not found in the current tree: the property cannot be decided"})
	}
	return ok
}

type CheckFn func(r *R)

type Check struct {
	ID    string
	Title string
	Expl  string
	Run   CheckFn
}

var checks = map[string]*Check{}

func register(id, title, expl string, f CheckFn) {
	checks[id] = &Check{id, title, expl, f}
}

type knownEntry struct {
	prop, key, desc string
}

func loadKnown(path string) []knownEntry {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var res []knownEntry
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: ")
		// known: property=C01 key=<rule|construct> :: description
		f, desc, _ := strings.Cut(rest, " :: ")
		var e knownEntry
		if p, k, ok := strings.Cut(f, " key="); ok {
			e.prop = strings.TrimPrefix(strings.TrimSpace(p), "property=")
			e.key = strings.TrimSpace(k)
			e.desc = desc
			res = append(res, e)
		}
	}
	return res
}

func newR(w *World, id string) *R {
	return &R{W: w, ID: id, Obl: map[string]int{}, Disch: map[string]int{}, Undecided: map[string]int{}, Info: map[string]any{}, Rules: map[string]string{}, sampled: map[string]int{}, Tier: envOr("VERIF_TIER", "quick")}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// finish writes the evidence and the report and returns the exit status.
func finish(verif string, c *Check, r *R, start time.Time, loadErr string) int {
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var fresh []Violation
	var knownHit []string
	seen := map[string]bool{}
	for _, v := range r.Violations {
		k := ""
		for _, e := range known {
			if e.prop == c.ID && e.key == v.Key() {
				k = e.desc
				if !seen[e.key] {
					seen[e.key] = true
					knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s at %s)", c.ID, e.desc, v.Construct, v.Pos))
				}
			}
		}
		if k == "" {
			fresh = append(fresh, v)
		}
	}
	for _, s := range knownHit {
		fmt.Println(s)
	}
	total, disch, und := 0, 0, 0
	for k, n := range r.Obl {
		total += n
		disch += r.Disch[k]
	}
	for _, n := range r.Undecided {
		und += n
	}
	perRule := map[string]any{}
	for k, n := range r.Obl {
		perRule[k] = map[string]any{"rule": r.Rules[k], "obligations": n, "discharged": r.Disch[k], "undecided": r.Undecided[k]}
	}
	fns, blocks, instrs := 0, 0, 0
	if r.W != nil {
		for _, f := range r.W.allFns {
			fns++
			blocks += len(f.Blocks)
			for _, b := range f.Blocks {
				instrs += len(b.Instrs)
			}
		}
	}
	npk := 0
	if r.W != nil {
		for _, p := range r.W.L.Order {
			if p.Repo {
				npk++
			}
		}
	}
	var vs []string
	for _, v := range fresh {
		vs = append(vs, fmt.Sprintf("%s: [%s] %s: %s", v.Pos, v.Rule, v.Construct, v.Msg))
	}
	sort.Strings(r.Samples)
	if len(r.Samples) > 60 {
		r.Samples = r.Samples[:60]
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	cov := map[string]any{
		"explanation":            c.Expl,
		"obligations":            total,
		"discharged":             disch,
		"undecided":              und,
		"rules":                  perRule,
		"repo_packages_analysed": npk,
		"functions_in_program":   fns,
		"ssa_blocks":             blocks,
		"ssa_instructions":       instrs,
		"samples":                r.Samples,
		"known_findings":         knownHit,
		"violations_found":       vs,
	}
	for k, v := range r.Info {
		cov[k] = v
	}
	ev := map[string]any{
		"property":   c.ID,
		"tier":       r.Tier,
		"seed":       seed,
		"level":      "other",
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(fresh),
		"assumptions": append([]string{
			"the analysed program is cmd/tsgolint and everything it imports, as built for linux/amd64 without build tags",
			"typescript-go is the pinned module version with /repo/patches applied",
		}, r.Assume...),
	}
	if loadErr != "" {
		cov["load_error"] = loadErr
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(data, '\n'), 0o644)

	for k, n := range r.Undecided {
		if n > 0 {
			fmt.Printf("note: rule %s: %d undecided instances\n", k, n)
		}
	}
	rep := filepath.Join(verif, "evidence", c.ID+".report.txt")
	if len(fresh) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %s\n\n", c.ID, c.Title)
		for _, s := range vs {
			b.WriteString(s + "\n")
		}
		os.WriteFile(rep, []byte(b.String()), 0o644)
		for _, s := range vs {
			fmt.Println(s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
		return 1
	}
	os.Remove(rep)
	fmt.Printf("ok: property %s: %d obligations, %d discharged, %d undecided\n", c.ID, total, disch, und)
	return 0
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation, keyed by rule + construct (never by line).
type Finding struct {
	Key string // stable identity: rule|construct
	Msg string
	At  string
}

// Ctx collects what one property's check analysed.
type Ctx struct {
	P        *Prog
	Prop     string
	Tier     string
	Findings []Finding
	Counts   map[string]int
	Notes    []string
	Rules    []string
	Assume   []string
	seen     map[string]bool
}

func (c *Ctx) count(k string, n int)   { c.Counts[k] += n }
func (c *Ctx) note(f string, a ...any) { c.Notes = append(c.Notes, fmt.Sprintf(f, a...)) }
func (c *Ctx) rule(s string)           { c.Rules = append(c.Rules, s) }
func (c *Ctx) assume(s string)         { c.Assume = append(c.Assume, s) }
func (c *Ctx) bad(key, at, f string, a ...any) {
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.Findings = append(c.Findings, Finding{Key: key, At: at, Msg: fmt.Sprintf(f, a...)})
}

// floor fails when a rule has fewer instances than the unchanged tree: an analysis that
// silently stops finding its subject must not pass.
func (c *Ctx) floor(k string, min int) {
	if c.Counts[k] < min {
		c.bad("coverage|"+k, "-", "analysis matched only %d instance(s) of %q, expected at least %d: the subject of this rule can no longer be resolved", c.Counts[k], k, min)
	}
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func readKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func (c *Ctx) finish(start time.Time) int {
	sort.Slice(c.Findings, func(i, j int) bool { return c.Findings[i].Key < c.Findings[j].Key })
	kf := map[string]known{}
	for _, k := range readKnown() {
		if k.Property == c.Prop && k.Status == "known" {
			kf[k.Key] = k
		}
	}
	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	var viol, knownHit []string
	n := 0
	for _, f := range c.Findings {
		if k, ok := kf[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.Prop, k.What, f.Key)
			knownHit = append(knownHit, f.Key)
			continue
		}
		n++
		rp := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.txt", c.Prop, n))
		os.WriteFile(rp, []byte(fmt.Sprintf("property: %s\nobligation: %s\nat: %s\n%s\n\nreproduce: bash %s/check.sh %s quick\n", c.Prop, f.Key, f.At, f.Msg, verifRoot(), c.Prop)), 0o644)
		fmt.Printf("%s: %s: %s\n", f.At, f.Key, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rp)
		viol = append(viol, f.Key+" at "+f.At+": "+f.Msg)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	keys := make([]string, 0, len(c.Counts))
	for k := range c.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var cs []string
	total := 0
	for _, k := range keys {
		cs = append(cs, fmt.Sprintf("%s=%d", k, c.Counts[k]))
		total += c.Counts[k]
	}
	expl := "Static analysis of /repo's current source (type-checked packages and SSA); nothing is executed. Analysed: " + strings.Join(cs, ", ") + ". Rules: " + strings.Join(c.Rules, " | ")
	if len(c.Notes) > 0 {
		expl += ". Notes: " + strings.Join(c.Notes, " | ")
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage":    map[string]any{"explanation": expl, "counts": c.Counts, "obligations": total},
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": append([]string{"go/types and x/tools SSA model the program faithfully", "no reflection or unsafe rewrites the analysed constructs"}, c.Assume...),
		"violations":  len(viol),
	}
	if len(viol) > 0 {
		ev["violation_list"] = viol
	}
	if len(knownHit) > 0 {
		ev["known_findings"] = knownHit
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %s\n", c.Prop, c.Tier, strings.Join(cs, " "))
	if len(viol) > 0 {
		return 1
	}
	return 0
}

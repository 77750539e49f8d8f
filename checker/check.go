package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// violation is a construct at which a rule does not hold.
type violation struct {
	rule   string
	where  string // file:line
	site   string // function and construct, without line numbers
	detail string
}

// key identifies the violation independently of line numbers.
func (v violation) key() string { return v.rule + " @ " + v.site }

// Ctx is one run of one check.
type Ctx struct {
	p       *Program
	only    func(where string) bool // the violations that matter now
	tier    string
	viols   []violation
	vseen   map[string]bool
	counts  map[string]int
	rules   []string
	samples []string
	notes   map[string]bool
}

func (c *Ctx) violate(rule, where, site, detail string, a ...any) {
	if c.only != nil && !c.only(where) {
		return
	}
	v := violation{rule, where, site, fmt.Sprintf(detail, a...)}
	k := v.key() + v.where
	if c.vseen[k] {
		return
	}
	c.vseen[k] = true
	found.Store(true)
	c.viols = append(c.viols, v)
}

func (c *Ctx) count(what string, n int) { c.counts[what] += n }

// floor: fewer constructs than that means that the analysis lost its subject.
func (c *Ctx) floor(what string, n int) {
	if c.counts[what] < n {
		c.violate("coverage", "-", what, "only %d %s found, at least %d expected: the analysis can not see its subject", c.counts[what], what, n)
	}
}

func (c *Ctx) sample(s string, a ...any) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(s, a...))
	}
}

func (c *Ctx) assume(s string) { c.notes[s] = true }

type check struct {
	id        string
	rule      string // what is decided, for the evidence
	technique string
	run       func(c *Ctx)
}

var checks []check

func register(id, technique, rule string, run func(c *Ctx)) {
	checks = append(checks, check{id, rule, technique, run})
}

type known struct{ property, key string }

// knownFindings reads the genuine defects that are recorded.
func knownFindings(dir string) []known {
	var out []known
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		l := s.Text()
		if r, ok := strings.CutPrefix(l, "finding: property="); ok {
			id, key, ok := strings.Cut(r, " ")
			if ok {
				if k, _, ok := strings.Cut(key, " ## "); ok {
					key = k
				}
				out = append(out, known{id, strings.TrimSpace(key)})
			}
		}
	}
	return out
}

// A check has 900 s; what is not decided before is reported as undecided, with
// what has been found until then. Less time is spent once something has been.
const (
	timeForAll  = 700 * time.Second
	timeForMore = 300 * time.Second
	timeToStop  = 820 * time.Second
)

var (
	started = time.Now()
	found   atomic.Bool
)

func overtime() bool {
	t := time.Since(started)
	return t > timeForAll || t > timeForMore && found.Load()
}

func runCheck(id, dir, repo string) int {
	start := time.Now()
	time.AfterFunc(timeToStop, func() {
		fmt.Printf("-: undecided: analysis: time for the analysis exceeded\nVIOLATION property=%s replay=%s\n", id, "run.sh")
		os.Exit(1)
	})
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var ck *check
	for i := range checks {
		if checks[i].id == id {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	c := &Ctx{tier: tier, counts: map[string]int{}, vseen: map[string]bool{}, notes: map[string]bool{}}
	p, err := loadProgram(repo, thmFiles(dir, id))
	if err != nil {
		c.violate("load", "-", "the module", "the source can not be analysed: %v", err)
	} else {
		c.p = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						c.violate("undecided", "-", "analysis", "%s", u.msg)
						return
					}
					if os.Getenv("DBG") != "" {
						panic(r)
					}
					c.violate("undecided", "-", "analysis", "the analysis met a construct it has no rule for: %v", r)
				}
			}()
			ck.run(c)
		}()
	}
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0o755)
	kf := knownFindings(dir)
	var bad, old []violation
	for _, v := range c.viols {
		isKnown := false
		for _, k := range kf {
			if k.property == id && k.key == v.key() {
				isKnown = true
			}
		}
		if isKnown {
			old = append(old, v)
		} else {
			bad = append(bad, v)
		}
	}
	replay := filepath.Join(ev, id+".violation.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nrule: %s\nreproduce: %s/run.sh %s (the analysis reads the source in %s)\n\n", id, ck.rule, dir, id, repo)
		for _, v := range bad {
			fmt.Fprintf(&sb, "%s\n  rule %s, construct %s\n  %s\n", v.where, v.rule, v.site, v.detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	for _, v := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, v.key(), oneLine(v.detail))
	}
	for i, v := range bad {
		if i < 20 {
			fmt.Printf("%s: %s: %s: %s\n", v.where, v.rule, v.site, oneLine(v.detail))
		}
	}
	cov := map[string]any{
		"explanation": ck.rule + ". Every run loads, type-checks and converts the current source of the module to SSA form, without running any of it.",
		"technique":   ck.technique,
		"measured":    c.counts,
		"samples":     c.samples,
	}
	if len(c.rules) > 0 {
		cov["rules"] = c.rules
	}
	var notes []string
	for n := range c.notes {
		notes = append(notes, n)
	}
	sort.Strings(notes)
	doc := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(bad), "assumptions": notes}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644)
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("ok property=%s tier=%s %s (%.1fs)\n", id, tier, countsString(c.counts), time.Since(start).Seconds())
	return 0
}

func countsString(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", strings.ReplaceAll(k, " ", "_"), m[k]))
	}
	return strings.Join(out, " ")
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// Package checks holds the repository-specific rules.
package checks

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/sa/eng"
)

// Finding is a violated (or undecided) obligation.
type Finding struct {
	Rule, Construct, Pos, Msg string
}

// Key identifies a finding independently of line numbers.
func (f Finding) Key() string { return f.Rule + " | " + f.Construct }

// Ctx collects the results of one check.
type Ctx struct {
	P        *eng.Program
	ID       string
	Tier     string
	Findings []Finding
	Obl      int // obligations examined
	Done     int // obligations discharged
	Rules    map[string]int
	Counts   map[string]int
	Fns      map[string]bool
	Notes    []string
	Assume   []string
	Samples  []string
	seenF    map[string]bool
}

// Ob records one obligation.
func (c *Ctx) Ob(ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
	c.Obl++
	c.Rules[rule]++
	if ok {
		c.Done++
		if len(c.Samples) < 12 && c.Rules[rule] == 1 {
			c.Samples = append(c.Samples, fmt.Sprintf("%s at %s (%s): holds", rule, construct, c.P.Pos(pos)))
		}
		return true
	}
	f := Finding{rule, construct, c.P.Pos(pos), fmt.Sprintf(format, a...)}
	k := f.Key() + f.Msg
	if !c.seenF[k] {
		c.seenF[k] = true
		c.Findings = append(c.Findings, f)
	}
	return false
}

// Fail records a finding that is not tied to an obligation count.
func (c *Ctx) Fail(rule, construct string, pos token.Pos, format string, a ...interface{}) {
	c.Ob(false, rule, construct, pos, format, a...)
}

// Need checks an instance count.
func (c *Ctx) Need(name string, n, min int) {
	c.Counts[name] = n
	c.Ob(n >= min, "instance-count", name, token.NoPos, "expected at least %d %s, found %d: the rule would pass vacuously", min, name, n)
}

// Add counts instances.
func (c *Ctx) Add(name string, n int) { c.Counts[name] += n }

// Complete fails on analysis gaps.
func (c *Ctx) Complete(in *eng.Interp, fn *ssa.Function) {
	for f := range in.FnsSeen {
		c.Fns[eng.ShortName(f)] = true
	}
	c.Fns[eng.ShortName(fn)] = true
	for _, s := range in.Incomplete {
		c.Fail("undecided", eng.ShortName(fn), fn.Pos(), "analysis incomplete: %s", s)
	}
}

// Check is one registered rule set.
type Check struct {
	ID     string
	Title  string
	Level  string
	Rule   string // one paragraph: what is decided
	Run    func(c *Ctx)
	Assume []string
	Tech   string
	Note   string
}

// Registry of checks by property id.
var Registry = map[string]*Check{}

func register(k *Check) { Registry[k.ID] = k }

// IDs lists the registered checks.
func IDs() []string {
	var out []string
	for k := range Registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Execute runs a check and writes evidence; it returns the process exit code.
func Execute(id, repo, verif string) (code int) {
	k := Registry[id]
	if k == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{ID: id, Tier: tier, Rules: map[string]int{}, Counts: map[string]int{}, Fns: map[string]bool{}, seenF: map[string]bool{}, Assume: k.Assume}
	p, err := eng.Load(repo)
	c.P = p
	if err != nil {
		c.Findings = append(c.Findings, Finding{"load", "module", repo, "the module does not type-check: " + err.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Findings = append(c.Findings, Finding{"undecided", "checker", "", fmt.Sprintf("the analysis could not decide this tree: %v", r)})
					if os.Getenv("SA_DEBUG") != "" {
						panic(r)
					}
				}
			}()
			k.Run(c)
		}()
		if len(c.Findings) == 0 && c.Obl == 0 {
			c.Findings = append(c.Findings, Finding{"instance-count", "obligations", "", "no obligation was examined"})
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []Finding
	for _, f := range c.Findings {
		if known[id+" "+f.Key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", id, f.Key(), f.Pos, f.Msg)
			continue
		}
		viol = append(viol, f)
	}
	evd := filepath.Join(verif, "evidence")
	os.MkdirAll(evd, 0o755)
	replay := filepath.Join(evd, "replay-"+id+".txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %s\nre-run: cd /verif && ./check %s\n\n", id, k.Title, id)
		for _, f := range viol {
			fmt.Fprintf(&b, "%s: rule %q violated at %s\n    %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	}
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":           k.Rule,
		"functions_analysed":    fns,
		"functions_count":       len(fns),
		"obligations":           c.Obl,
		"discharged":            c.Done,
		"obligations_by_rule":   c.Rules,
		"instances":             c.Counts,
		"samples":               c.Samples,
		"undecided_or_violated": len(c.Findings),
	}
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	level := k.Level
	if level == "" {
		level = "other"
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": 1, "level": level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evd, id+".json"), b, 0o644)
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d in %.1fs\n", id, c.Obl, len(fns), time.Since(start).Seconds())
	return 0
}

// loadKnown reads "KNOWN property=<id> key=<rule | construct> ..." lines.
func loadKnown(path string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		parts := strings.SplitN(l, " ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[1], "key=[") {
			continue
		}
		k := parts[1][len("key=["):]
		if i := strings.Index(k, "]"); i >= 0 {
			out[parts[0]+" "+k[:i]] = true
		}
	}
	return out
}

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"` // stable identity (function, field, call), no line numbers
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path,omitempty"`
	Known     bool     `json:"known,omitempty"`
}

// Ctx is what a property's rules run in.
type Ctx struct {
	P        *Prog
	Prop     string
	Tier     string
	Findings []Finding
	seen     map[string]bool
	rules    map[string]string // rule id -> text
	ruleOrd  []string
	oblig    map[string]int
	bad      map[string]int
	counts   map[string]int
	samples  []string
	funcs    map[*ssa.Function]bool
	assume   []string
	cur      string // current rule, for panics
}

// Rule declares a rule; its obligations are counted under id.
func (c *Ctx) Rule(id, text string) {
	c.cur = id
	if _, ok := c.rules[id]; !ok {
		c.ruleOrd = append(c.ruleOrd, id)
	}
	c.rules[id] = text
}

// Obl counts one obligation of a rule (checked instance).
func (c *Ctx) Obl(rule string, sample string) {
	c.oblig[rule]++
	if len(c.samples) < 40 && sample != "" {
		s := rule + ": " + sample
		for _, o := range c.samples {
			if o == s {
				return
			}
		}
		c.samples = append(c.samples, s)
	}
}

func (c *Ctx) Count(what string, n int) { c.counts[what] += n }

func (c *Ctx) Fn(fs ...*ssa.Function) {
	for _, f := range fs {
		if f != nil {
			c.funcs[f] = true
		}
	}
}

func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Fail records a violation; at most one per rule+construct.
func (c *Ctx) Fail(rule, construct string, pos token.Pos, msg string, trace ...string) {
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.bad[rule]++
	c.Findings = append(c.Findings, Finding{Rule: rule, Construct: construct, Pos: c.P.Pos(pos), Msg: msg, Trace: trace})
}

// Require fails unless at least min instances of a rule were found.
func (c *Ctx) Require(rule string, n, min int, what string) {
	c.Count("instances:"+rule+":"+what, n)
	if n < min {
		c.Fail(rule, "instances:"+what, token.NoPos, fmt.Sprintf("found %d %s, expected at least %d: the rule no longer matches the code it must decide", n, what, min))
	}
}

// Missing reports an anchor that could not be resolved.
func (c *Ctx) Missing(rule, what string) {
	c.Fail(rule, "anchor:"+what, token.NoPos, "cannot find "+what+" in the current source: the property cannot be decided")
}

type ruleFn func(c *Ctx)

// Borrow decides a rule of this property with the rule of another property:
// its findings whose construct or rule matches are this property's, under the
// given rule, and its obligations count for that rule.
func (c *Ctx) Borrow(rule, prop string, match func(f Finding) bool) {
	d := &Ctx{P: c.P, Prop: prop, Tier: c.Tier, seen: map[string]bool{}, rules: map[string]string{}, oblig: map[string]int{}, bad: map[string]int{},
		counts: map[string]int{}, funcs: map[*ssa.Function]bool{}}
	rules[prop](d)
	for f := range d.funcs {
		c.Fn(f)
	}
	c.Obl(rule, "decided together with "+prop)
	for _, f := range d.Findings {
		if !match(f) {
			continue
		}
		k := rule + "|" + f.Construct
		if c.seen[k] {
			continue
		}
		c.seen[k] = true
		c.bad[rule]++
		f.Rule = rule
		c.Findings = append(c.Findings, f)
	}
}

var rules = map[string]ruleFn{}

type knownEntry struct{ prop, rule, construct, text string }

func readKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 4)
		if len(f) == 4 {
			out = append(out, knownEntry{strings.TrimPrefix(f[0], "property="), f[1], f[2], f[3]})
		}
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id, comma list, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif directory")
	out := flag.String("out", "", "evidence directory (default VERIF/evidence)")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "dump SSA of functions whose name contains this")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *out == "" {
		*out = filepath.Join(*verif, "evidence")
	}
	start := time.Now()
	p, lerr := load(*repo)
	if *dump != "" {
		if lerr != nil {
			fmt.Println(lerr)
			return
		}
		for _, f := range p.Funcs {
			if strings.Contains(f.String(), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for k := range rules {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		t0 := start
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if runProp(p, lerr, id, *tier, *verif, *out, t0) {
			rc = 1
		}
	}
	if *prof != "" {
		return
	}
	os.Exit(rc)
}

func runProp(p *Prog, lerr error, id, tier, verif, out string, start time.Time) (violated bool) {
	c := &Ctx{P: p, Prop: id, Tier: tier, seen: map[string]bool{}, rules: map[string]string{}, oblig: map[string]int{}, bad: map[string]int{},
		counts: map[string]int{}, funcs: map[*ssa.Function]bool{}}
	if lerr != nil {
		c.P = &Prog{}
		c.Findings = append(c.Findings, Finding{Rule: "load", Construct: "program", Pos: "?", Msg: "the program does not type-check: " + lerr.Error()})
	} else if r, ok := rules[id]; !ok {
		c.Findings = append(c.Findings, Finding{Rule: "none", Construct: id, Pos: "?", Msg: "no rule for property"})
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("FINCHLINT_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
					}
					c.Findings = append(c.Findings, Finding{Rule: c.cur, Construct: "analysis", Pos: "?", Msg: fmt.Sprintf("the analysis failed: %v (undecided)", e)})
				}
			}()
			r(c)
		}()
		for _, r := range c.ruleOrd {
			if c.oblig[r] == 0 && c.bad[r] == 0 {
				c.Findings = append(c.Findings, Finding{Rule: r, Construct: "vacuous", Pos: "?", Msg: "the rule matched nothing in the current source"})
			}
		}
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	nviol := 0
	for i := range c.Findings {
		f := &c.Findings[i]
		for _, k := range known {
			if k.prop == id && k.rule == f.Rule && k.construct == f.Construct {
				f.Known = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", id, f.Rule, k.text, f.Pos)
			}
		}
		if !f.Known {
			nviol++
		}
	}
	os.MkdirAll(out, 0o755)
	if nviol > 0 {
		rep := filepath.Join(out, id+".violation.txt")
		var sb strings.Builder
		for _, f := range c.Findings {
			if f.Known {
				continue
			}
			fmt.Fprintf(&sb, "property %s, rule %s: %s\n  construct: %s\n  at %s: %s\n", id, f.Rule, c.rules[f.Rule], f.Construct, f.Pos, f.Msg)
			for _, t := range f.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		os.WriteFile(rep, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	} else {
		os.Remove(filepath.Join(out, id+".violation.txt"))
	}
	// evidence
	total, bad := 0, 0
	perRule := map[string]any{}
	for _, r := range c.ruleOrd {
		total += c.oblig[r]
		bad += c.bad[r]
		perRule[r] = map[string]any{"rule": c.rules[r], "obligations": c.oblig[r], "violated": c.bad[r]}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":        "Static analysis of the type-checked program and its SSA form, rebuilt from the working tree on this run. obligations counts rule instances (call sites, paths to an event, fields, table rows) that were decided; discharged counts those that hold.",
		"obligations":        total,
		"discharged":         total - bad,
		"rules":              perRule,
		"functions_analysed": fns,
		"counts":             c.counts,
		"samples":            c.samples,
	}
	if p != nil {
		cov["packages_loaded"] = len(p.Pkgs)
		cov["functions_loaded"] = len(p.Funcs)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": c.assume,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0o644)
	if nviol == 0 {
		fmt.Printf("ok property=%s obligations=%d rules=%d functions=%d\n", id, total, len(c.ruleOrd), len(fns))
	}
	return nviol > 0
}

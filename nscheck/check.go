package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one instance of a rule on a construct of the repository.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
	Known     bool   `json:"known_finding,omitempty"`
}

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Rules string // what the rules are, for the evidence
	Min   int    // fewest rule instances of a meaningful run
	Run   func(*Ctx)
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// Ctx is a run of a check.
type Ctx struct {
	*Program
	check  *Check
	m      *Machine
	tier   string
	obs    []Obligation
	seen   map[string]int
	events int
	cache  map[string][]*State
	notes  []string
}

func newCtx(p *Program, ch *Check) *Ctx {
	return &Ctx{Program: p, check: ch, m: newMachine(p), seen: map[string]int{}, cache: map[string][]*State{}}
}

// shortFn names a function without the module path.
func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "<missing>"
	}
	return shortName(fn.String())
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (c *Ctx) record(ok bool, rule, construct, pos, detail string) bool {
	key := rule + "|" + construct
	if i, dup := c.seen[key]; dup {
		if !ok && c.obs[i].OK {
			c.obs[i] = Obligation{Rule: rule, Construct: construct, Pos: pos, Detail: detail}
		}
		return ok
	}
	c.seen[key] = len(c.obs)
	c.obs = append(c.obs, Obligation{Rule: rule, Construct: construct, Pos: pos, OK: ok, Detail: detail})
	return ok
}

// borrow records the instances of the given rules which run decides for another
// property, where breaking them breaks this one too.
func (c *Ctx) borrow(run func(*Ctx), rules ...string) {
	sub := newCtx(c.Program, c.check)
	sub.tier, sub.cache, sub.m = c.tier, c.cache, c.m
	run(sub)
	for _, o := range sub.obs {
		for _, r := range rules {
			if o.Rule == r {
				c.record(o.OK, o.Rule, o.Construct, o.Pos, o.Detail)
			}
		}
	}
}

// require records an instance of rule on construct.
func (c *Ctx) require(ok bool, rule, construct, pos, format string, args ...interface{}) bool {
	d := ""
	if !ok {
		d = fmt.Sprintf(format, args...)
	}
	return c.record(ok, rule, construct, pos, d)
}

func (c *Ctx) fail(rule, construct, pos, format string, args ...interface{}) {
	c.record(false, rule, construct, pos, fmt.Sprintf(format, args...))
}

// guard runs f, an undecided analysis is a violation.
func (c *Ctx) guard(construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.fail("undecided", construct, "", "%s", u.msg)
				return
			}
			if os.Getenv("NSCHECK_PANIC") != "" {
				panic(r)
			}
			c.fail("undecided", construct, "", "analysis failed: %v", r)
		}
	}()
	f()
}

// paths returns the final states of the paths of fn, nil when it can not be decided.
func (c *Ctx) paths(fn *ssa.Function) []*State {
	if fn == nil {
		return nil
	}
	key := fn.String()
	if r, ok := c.cache[key]; ok {
		return r
	}
	var outs []*State
	c.guard(shortFn(fn), func() {
		var args []*Term
		for i := range fn.Params {
			args = append(args, paramTerm(fn, i))
		}
		outs = c.m.Run(fn, args, nil, newState(c.m))
	})
	for _, o := range outs {
		c.events += len(o.events)
	}
	c.cache[key] = outs
	return outs
}

// need resolves an anchor.
func (c *Ctx) need(fn *ssa.Function, what string) bool {
	return c.require(fn != nil, "anchor", what, "", "%s does not exist any more", what)
}

func fnPos(fn *ssa.Function) string {
	if fn == nil || !fn.Pos().IsValid() {
		return ""
	}
	p := fn.Prog.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

// ---- running

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int                    `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	WallS      float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func runCheck(p *Program, ch *Check, loadErr error, tier string, outDir string) int {
	start := time.Now()
	var c *Ctx
	if loadErr == nil {
		c = newCtx(p, ch)
		c.tier = tier
		c.guard("check", func() { ch.Run(c) })
		n := 0
		for _, o := range c.obs {
			if o.Rule != "undecided" && o.Rule != "anchor" {
				n++
			}
		}
		if n < ch.Min {
			c.fail("coverage", "rule instances", "", "only %d rule instances have been found, %d were confirmed", n, ch.Min)
		}
	} else {
		c = &Ctx{check: ch, seen: map[string]int{}, m: &Machine{funcsSeen: map[*ssa.Function]bool{}}}
		c.fail("load", "/repo", "", "%v", loadErr)
	}
	known := readKnown(ch.ID)
	var viol []Obligation
	rules := map[string]int{}
	for i := range c.obs {
		o := &c.obs[i]
		rules[o.Rule]++
		if o.OK {
			continue
		}
		if k, ok := known[o.Rule+"|"+o.Construct]; ok {
			o.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
			continue
		}
		viol = append(viol, *o)
	}
	var fns []string
	for fn := range c.m.funcsSeen {
		fns = append(fns, shortFn(fn))
	}
	sort.Strings(fns)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if viol == nil {
		viol = []Obligation{}
	}
	var sample []string
	for _, o := range c.obs {
		sample = append(sample, o.Rule+": "+o.Construct)
	}
	ev := evidence{
		Property: ch.ID, Tier: tier, Seed: seed, Level: "other",
		Coverage: map[string]interface{}{
			"explanation":         ch.Rules,
			"obligations":         len(c.obs),
			"discharged":          len(c.obs) - len(viol),
			"rule_instances":      rules,
			"functions_analysed":  len(fns),
			"functions":           fns,
			"paths":               c.m.paths,
			"instructions":        c.m.steps,
			"events":              c.events,
			"obligation_list":     sample,
			"min_rule_instances":  ch.Min,
			"notes":               c.notes,
			"analysed_repository": repoDir,
			"violation_list":      viol,
		},
		WallS: time.Since(start).Seconds(), Violations: len(viol),
	}
	os.MkdirAll(outDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("can not write evidence:", err)
		return 2
	}
	replay := filepath.Join(outDir, ch.ID+".replay.txt")
	if len(viol) == 0 {
		os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", ch.ID, len(c.obs), len(fns), c.m.paths)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", ch.ID, ch.Title)
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: rule %q on %s\n    %s\n", orDash(v.Pos), v.Rule, v.Construct, v.Detail)
	}
	fmt.Fprintf(&sb, "\nreplay: %s %s\n", os.Args[0], ch.ID)
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, replay)
	return 1
}

func orDash(s string) string {
	if s == "" {
		return "-"
	}
	return s
}

// readKnown reads the findings recorded for a property:
// known: property=<id> key=<rule>|<construct> :: <what fails>
func readKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, pre), " :: ", 2)
		if len(parts) == 2 {
			r[strings.TrimSpace(parts[0])] = parts[1]
		}
	}
	return r
}

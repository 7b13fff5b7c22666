package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one broken obligation. Its identity is rule + function + construct
// (never a line number).
type Finding struct {
	Rule, Func, Construct string
	Pos                   string
	Msg                   string
	Path                  []string
}

func (f *Finding) Key() string { return f.Rule + " | " + f.Func + " | " + f.Construct }

// Rule is one decided obligation family of a property.
type Rule struct {
	Name, Desc string
	Run        func(*Ctx)
}

var registry = map[string][]Rule{}
var notes = map[string]string{}

func register(prop, name, desc string, run func(*Ctx)) {
	registry[prop] = append(registry[prop], Rule{prop + "." + name, desc, run})
}

type RunOpt struct {
	Visits   int
	Inline   func(*ssa.Function) bool
	Relevant func(*Event) bool
	Observe  func(*Engine, *Event, *State)
	MaxItems int
	Key      string // cache key; empty: not cached
	Setup    func(r *Run, st *State)
}

type Run struct {
	E     *Engine
	Fn    *ssa.Function
	Args  []*Term // receiver first
	Exits []*Exit
	Name  string
}

type Ctx struct {
	P        *Program
	Prop     string
	Tier     string
	rule     string
	findings map[string]*Finding
	obs      map[string]int
	sites    map[string]bool
	runs     map[string]*Run
	fns      map[string]bool
	paths    int
	items    int
	events   int
	fnSeen   map[string]bool
	samples  []string
	hazards  map[token.Pos]hazard
	safeUses map[token.Pos]*ssa.Function
}

func newCtx(p *Program, prop, tier string) *Ctx {
	return &Ctx{P: p, Prop: prop, Tier: tier, findings: map[string]*Finding{}, obs: map[string]int{}, sites: map[string]bool{}, runs: map[string]*Run{}, fns: map[string]bool{}, fnSeen: map[string]bool{}, hazards: map[token.Pos]hazard{}, safeUses: map[token.Pos]*ssa.Function{}}
}

// Ob counts one checked obligation at a construct.
func (c *Ctx) Ob(fn, site string) {
	c.obs[c.rule]++
	k := c.rule + " @ " + fn + " : " + site
	if !c.sites[k] {
		c.sites[k] = true
		if len(c.samples) < 400 {
			c.samples = append(c.samples, k)
		}
	}
}

func (c *Ctx) Fail(fn, construct, pos, msg string, path []string) {
	f := &Finding{Rule: c.rule, Func: fn, Construct: construct, Pos: pos, Msg: msg, Path: path}
	old := c.findings[f.Key()]
	if old == nil || len(path) < len(old.Path) {
		c.findings[f.Key()] = f
	}
}

// Check is Ob plus Fail when the obligation does not hold.
func (c *Ctx) Check(ok bool, r *Run, x *Exit, ev *Event, construct, msg string) bool {
	name := "?"
	if r != nil {
		name = r.Name
	}
	c.Ob(name, construct)
	if ok {
		return true
	}
	pos := "?"
	if ev != nil {
		pos = c.P.At(ev.Pos)
	} else if x != nil {
		pos = c.P.At(x.Pos)
	} else if r != nil {
		pos = c.P.At(r.Fn.Pos())
	}
	if ev != nil {
		msg += "\n    at " + r.E.describe(ev)
	}
	c.Fail(name, construct, pos, msg, c.pathOf(r, x))
	return false
}

func (c *Ctx) pathOf(r *Run, x *Exit) []string {
	if x == nil {
		return nil
	}
	var out []string
	for _, ev := range x.St.trace.Events() {
		if ev.Kind == "loop" {
			out = append(out, c.P.At(ev.Pos)+": next iteration")
			continue
		}
		s := c.P.At(ev.Pos) + ": " + ev.Callee
		if len(ev.Results) > 0 {
			l := ev.Results[len(ev.Results)-1]
			if l.Typ != nil && l.Typ.String() == "error" {
				switch r.E.known(x.St, r.E.eq(l, r.E.mkNil())) {
				case -1:
					s += "  [assumed to fail]"
				}
			}
		}
		out = append(out, s)
	}
	out = append(out, c.P.At(x.Pos)+": "+x.Kind)
	return out
}

func (e *Engine) describe(ev *Event) string {
	var as []string
	for i, a := range ev.Args {
		s := a.String()
		if i < len(ev.Snap) && ev.Snap[i] != nil {
			s += " => " + ev.Snap[i].String()
		}
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		as = append(as, s)
	}
	return fmt.Sprintf("%s %s(%s)", e.P.At(ev.Pos), ev.Callee, strings.Join(as, ", "))
}

// Run analyses an entry point; a missing entry point is itself a finding.
func (c *Ctx) Run(pkg, recv, name string, o RunOpt) *Run {
	fn := c.P.Func(pkg, recv, name)
	id := pkg + "." + name
	if recv != "" {
		id = "(" + pkg + "." + recv + ")." + name
	}
	if fn == nil || len(fn.Blocks) == 0 {
		c.Fail(id, "anchor", "?", "entry point not found", nil)
		return nil
	}
	return c.RunFn(fn, o)
}

func (c *Ctx) RunFn(fn *ssa.Function, o RunOpt) *Run {
	ck := ""
	if o.Key != "" {
		ck = o.Key + "|" + fn.String()
		if r := c.runs[ck]; r != nil {
			return r
		}
	}
	e := NewEngine(c.P)
	if o.Visits > 0 {
		e.MaxVisits = o.Visits
	}
	if o.MaxItems > 0 {
		e.MaxItems = o.MaxItems
	}
	e.Inline = o.Inline
	if e.Inline == nil {
		e.Inline = defaultInline
	}
	e.Relevant = o.Relevant
	if o.Observe != nil {
		e.Observe = func(ev *Event, st *State) { o.Observe(e, ev, st) }
	}
	r := &Run{E: e, Fn: fn, Name: fnName(fn)}
	r.Args = e.Params(fn)
	st := newState()
	if o.Setup != nil {
		o.Setup(r, st)
	}
	r.Exits = e.Run(fn, st, r.Args)
	c.account(r)
	if ck != "" {
		c.runs[ck] = r
	}
	return r
}

func (c *Ctx) account(r *Run) {
	c.paths += len(r.Exits)
	c.items += r.E.items
	c.events += r.E.nevents
	c.fns[r.Name] = true
	for f := range r.E.fnsSeen {
		c.fnSeen[fnName(f)] = true
	}
	for pos, h := range r.E.hazards {
		if _, ok := c.hazards[pos]; !ok {
			c.hazards[pos] = h
		}
	}
	for pos, fn := range r.E.safeUses {
		c.safeUses[pos] = fn
	}
	if r.E.overflow {
		c.Fail(r.Name, "analysis budget", c.P.At(r.Fn.Pos()), "the function could not be explored within the analysis budget; the property is undecided", nil)
	}
}

// ---- running a property ----------------------------------------------

type knownFile struct {
	Known []knownEntry `json:"known"`
	Fixed []string     `json:"fixed"`
}
type knownEntry struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Func      string `json:"func"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

func runProperty(repo, verif, prop, tier string) int {
	start := time.Now()
	rules := registry[prop]
	if len(rules) == 0 {
		fmt.Printf("no rules for %s\n", prop)
		return 2
	}
	var c *Ctx
	p, err := loadProgram(repo)
	switch {
	case err != nil:
		c = newCtx(nil, prop, tier)
		c.rule = "load"
		c.Fail("/repo", "load", "?", "the program could not be loaded: "+err.Error(), nil)
	case len(p.Errors) > 0:
		c = newCtx(p, prop, tier)
		c.rule = "load"
		c.Fail("/repo", "type check", "?", "the program does not type-check: "+strings.Join(p.Errors, "; "), nil)
	default:
		c = newCtx(p, prop, tier)
		for _, r := range rules {
			c.runRule(r)
		}
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
		}
	}
	known := map[string]knownEntry{}
	for _, k := range kf.Known {
		if k.Property == prop {
			known[k.Rule+" | "+k.Func+" | "+k.Construct] = k
		}
	}
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []*Finding
	seenKnown := 0
	for _, k := range keys {
		if e, ok := known[k]; ok {
			seenKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s in %s)\n", prop, e.What, e.Rule, e.Func)
			continue
		}
		bad = append(bad, c.findings[k])
	}
	replay := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	code := 0
	if len(bad) > 0 {
		code = 1
		var sb strings.Builder
		for _, f := range bad {
			fmt.Fprintf(&sb, "property %s broken\nrule:      %s\nfunction:  %s\nconstruct: %s\nat:        %s\n%s\n", prop, f.Rule, f.Func, f.Construct, f.Pos, f.Msg)
			if len(f.Path) > 0 {
				sb.WriteString("path:\n  " + strings.Join(f.Path, "\n  ") + "\n")
			}
			sb.WriteString("\n")
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for _, f := range bad {
			fmt.Printf("%s: [%s] %s: %s: %s\n", f.Pos, f.Rule, f.Func, f.Construct, f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		}
	}
	writeEvidence(c, repo, verif, prop, tier, start, len(bad), seenKnown)
	fmt.Printf("%s %s: %d rules, %d obligations at %d sites, %d entry points, %d functions, %d abstract paths, %d violation(s), %d known finding(s), %.1fs\n",
		prop, tier, len(rules), total(c.obs), len(c.sites), len(c.fns), len(c.fnSeen), c.paths, len(bad), seenKnown, time.Since(start).Seconds())
	return code
}

func (c *Ctx) runRule(r Rule) {
	c.rule = r.Name
	if _, ok := c.obs[r.Name]; !ok {
		c.obs[r.Name] = 0
	}
	defer func() {
		if x := recover(); x != nil {
			c.Fail("analysis", "internal error", "?", fmt.Sprintf("%v\n%s", x, debug.Stack()), nil)
		}
	}()
	r.Run(c)
	if c.obs[r.Name] == 0 {
		c.Fail("analysis", "no instance", "?", "the rule matched nothing in the current source: "+r.Desc, nil)
	}
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(c *Ctx, repo, verif, prop, tier string, start time.Time, bad, known int) {
	var rs []map[string]any
	for _, r := range registry[prop] {
		rs = append(rs, map[string]any{"rule": r.Name, "statement": r.Desc, "obligations_checked": c.obs[r.Name]})
	}
	var entry []string
	for f := range c.fns {
		entry = append(entry, f)
	}
	sort.Strings(entry)
	var fns []string
	for f := range c.fnSeen {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":         "Static analysis of /repo's current source (go/packages + SSA, callees resolved through types). Every rule below is an obligation evaluated on every abstract path of the listed entry points (trace-partitioned abstract interpretation with value numbering; repository helpers are inlined, library and interface calls are uninterpreted events) or on every matching construct of the program. " + notes[prop],
			"rules":               rs,
			"obligations_checked": total(c.obs),
			"distinct_sites":      len(c.sites),
			"sites":               c.samples,
			"entry_points":        entry,
			"functions_analysed":  fns,
			"abstract_paths":      c.paths,
			"blocks_interpreted":  c.items,
			"events":              c.events,
			"known_findings":      known,
			"repo_head":           gitHead(repo),
		},
		"assumptions": []string{
			"Loops are followed for a bounded number of iterations (1-3 per rule); behaviour that needs more iterations to differ is not distinguished.",
			"Library calls (archive/tar, database/sql, sqlboiler, age, openpgp, minisign, compressors) are uninterpreted; only the facts listed in DESIGN.md are assumed about them.",
			"Integer conversions are treated as value preserving (no overflow).",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

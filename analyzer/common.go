package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- event and exit helpers ------------------------------------------

func (x *Exit) events() []*Event { return x.St.trace.Events() }

// err is the error result of an event (nil when it has none).
func (ev *Event) err() *Term {
	if len(ev.Results) == 0 {
		return nil
	}
	l := ev.Results[len(ev.Results)-1]
	if l.Typ != nil && types.Identical(l.Typ, errorType) {
		return l
	}
	return nil
}

func (ev *Event) is(names ...string) bool {
	for _, n := range names {
		if ev.Callee == n {
			return true
		}
	}
	return false
}

func (ev *Event) arg(i int) *Term {
	if i < len(ev.Args) {
		return strip(ev.Args[i])
	}
	return nil
}

// snap is what argument i pointed to when the call was made.
func (ev *Event) snap(i int) *Term {
	if i < len(ev.Snap) && ev.Snap[i] != nil {
		return ev.Snap[i]
	}
	return ev.arg(i)
}

// isNilOn: 1 known nil, -1 known not nil, 0 unknown on this exit.
func (r *Run) isNilOn(x *Exit, t *Term) int {
	if t == nil {
		return 0
	}
	return r.E.known(x.St, r.E.eq(t, r.E.mkNil()))
}

// errResult: the function's error result on this exit (nil if none).
func (r *Run) errResult(x *Exit) *Term {
	res := r.Fn.Signature.Results()
	if x.Kind != "return" || res.Len() == 0 || len(x.Results) != res.Len() {
		return nil
	}
	if !types.Identical(res.At(res.Len()-1).Type(), errorType) {
		return nil
	}
	return x.Results[res.Len()-1]
}

// mayOk: the exit may report success.
func (r *Run) mayOk(x *Exit) bool {
	if x.Kind != "return" {
		return false
	}
	e := r.errResult(x)
	if e == nil {
		return true
	}
	return r.isNilOn(x, e) != -1
}

// okExits are the returns that may report success.
func (r *Run) okExits() []*Exit {
	var out []*Exit
	for _, x := range r.Exits {
		if r.mayOk(x) {
			out = append(out, x)
		}
	}
	return out
}

func (r *Run) returns() []*Exit {
	var out []*Exit
	for _, x := range r.Exits {
		if x.Kind == "return" {
			out = append(out, x)
		}
	}
	return out
}

// fact reports what the exit knows about a condition.
func (r *Run) fact(x *Exit, c *Term) int { return r.E.known(x.St, c) }

func (r *Run) eqStr(x *Exit, t *Term, s string) int { return r.fact(x, r.E.eq(t, r.E.mkStr(s))) }

// at evaluates a condition with the facts known when the event happened.
func (r *Run) at(ev *Event, c *Term) int { return r.E.knownIn(ev.Facts, c) }

// last event before index i satisfying the predicate
func lastBefore(evs []*Event, i int, f func(*Event) bool) (int, *Event) {
	for j := i - 1; j >= 0; j-- {
		if f(evs[j]) {
			return j, evs[j]
		}
	}
	return -1, nil
}

func firstFrom(evs []*Event, i int, f func(*Event) bool) (int, *Event) {
	for j := i; j < len(evs); j++ {
		if f(evs[j]) {
			return j, evs[j]
		}
	}
	return -1, nil
}

func find(evs []*Event, f func(*Event) bool) *Event {
	_, e := firstFrom(evs, 0, f)
	return e
}

func named(n ...string) func(*Event) bool { return func(e *Event) bool { return e.is(n...) } }

func count(evs []*Event, f func(*Event) bool) int {
	n := 0
	for _, e := range evs {
		if f(e) {
			n++
		}
	}
	return n
}

// ---- terms ------------------------------------------------------------

// isOut: t is what ev wrote through its i-th argument.
func isOut(t *Term, ev *Event, i int) bool {
	return t != nil && t.Op == "res" && t.Ev.key == ev.key && t.Idx == 100+i
}

func (t *Term) isResOf(ev *Event) bool { return t != nil && t.Op == "res" && t.Ev.key == ev.key }

// resOf: t is result i of a call to one of the names.
func resOf(t *Term, i int, names ...string) bool {
	t = strip(t)
	if t == nil || t.Op != "res" || t.Ev == nil {
		return false
	}
	if !(t.Idx == i || i == 0 && t.Idx == -1) {
		return false
	}
	for _, n := range names {
		if t.Ev.Callee == n {
			return true
		}
	}
	return len(names) == 0
}

// typeName: "PipeConfig" for a (pointer to a) named type.
func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func typePath(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

// fieldOf decomposes "owner.field": t is the field read of a struct value or of
// memory; owner type name, field name and the base it was read from.
func fieldOf(t *Term) (owner, field string, base *Term) {
	t = strip(t)
	if t == nil {
		return
	}
	switch {
	case t.Op == "deref" && t.Args[0].Op == "fldaddr":
		a := t.Args[0]
		return typeName(a.Args[0].Typ), a.Name, a.Args[0]
	case t.Op == "fld":
		return typeName(t.Args[0].Typ), t.Name, t.Args[0]
	}
	return
}

// rootOf follows field and memory reads down to what they start from.
func rootOf(t *Term) *Term {
	for t != nil {
		t = strip(t)
		switch t.Op {
		case "deref", "fld", "fldaddr", "elem", "idx":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// isCfg: t is the configuration value Owner.Field handed to the entry point
// (through its receiver or a parameter), unmodified.
func (r *Run) isCfg(t *Term, owner, field string) bool {
	o, f, _ := fieldOf(t)
	if o != owner || f != field {
		return false
	}
	root := rootOf(t)
	for _, a := range r.Args {
		if root == strip(a) {
			return true
		}
	}
	// a configuration obtained through an accessor of the operations object
	return root.Op == "res" && strings.Contains(root.Ev.Callee, "Operations).Get")
}

func (r *Run) isArg(t *Term, i int) bool { return strip(t) == strip(r.Args[i]) }

// argNamed returns the parameter with that position after the receiver.
func (r *Run) param(i int) *Term {
	if r.Fn.Signature.Recv() != nil {
		i++
	}
	if i < len(r.Args) {
		return strip(r.Args[i])
	}
	return nil
}

func (t *Term) has(sub *Term) bool {
	return t.contains(func(x *Term) bool { return x == sub })
}

func (t *Term) hasDeep(sub *Term) bool {
	return t.containsDeep(func(x *Term) bool { return x == sub })
}

// mapPairs lists the entries of a map snapshot; ok is false when the map may
// hold other entries as well.
func mapPairs(ms *Term) (keys []string, vals []*Term, exact bool) {
	if ms == nil || !ms.isApp("mapsnap") {
		return nil, nil, false
	}
	exact = ms.Args[0].Op == "makemap"
	for i := 1; i+1 < len(ms.Args); i += 2 {
		if !ms.Args[i].isStr() {
			return nil, nil, false
		}
		keys = append(keys, ms.Args[i].Name)
		vals = append(vals, ms.Args[i+1])
	}
	return
}

// structFields lists fields set on a zero struct value.
func structFields(t *Term) (map[string]*Term, bool) {
	if t == nil {
		return nil, false
	}
	if t.Op == "zero" {
		return map[string]*Term{}, true
	}
	if t.Op == "with" && t.Args[0].Op == "zero" {
		m := map[string]*Term{}
		for i, n := range strings.Split(t.Name, ",") {
			m[n] = t.Args[i+1]
		}
		return m, true
	}
	return nil, false
}

// ---- constants of the repository --------------------------------------

func (c *Ctx) constStr(pkg, name string) string {
	sp := c.P.SSA[pkg]
	if sp != nil {
		if k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	c.Fail(pkg, "constant "+name, "?", "exported string constant not found", nil)
	return "\x00" + name
}

func (c *Ctx) constInt(pkg, name string) int64 {
	sp := c.P.SSA[pkg]
	if sp != nil {
		if k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.Int {
			v, _ := constant.Int64Val(k.Val())
			return v
		}
	}
	c.Fail(pkg, "constant "+name, "?", "exported integer constant not found", nil)
	return -1
}

// ---- generic rule: a success return means every call succeeded ---------

// errDiscipline: on every return that may report success, the error result of
// every call made on the way is known to be nil, is itself what is returned,
// or is accepted by allow.
func (c *Ctx) errDiscipline(r *Run, allow func(ev *Event, x *Exit) bool) {
	for _, x := range r.okExits() {
		ret := r.errResult(x)
		for _, ev := range x.events() {
			er := ev.err()
			if er == nil || ev.Kind != "call" {
				continue
			}
			if er == ret || r.isNilOn(x, er) == 1 {
				c.Ob(r.Name, ev.Callee)
				continue
			}
			if allow != nil && allow(ev, x) {
				continue
			}
			c.Check(false, r, x, ev, "error of "+ev.Callee, "a successful return is reached although this call failed (its error is dropped)")
		}
	}
}

// callers: all call instructions in repository source (not examples, not the
// command line unless cmd is set) whose resolved callee satisfies f.
func (c *Ctx) callSites(f func(name string) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, fn := range c.P.SrcFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f(calleeName(ci.Common())) {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return short(cc.Method.FullName())
	}
	if fn := cc.StaticCallee(); fn != nil {
		return fnName(fn)
	}
	return ""
}

// fnPkg is the short package path of a function.
func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return short(fn.Pkg.Pkg.Path())
}

// ---- shared entry points ----------------------------------------------

// opsRun analyses an exported method of Operations.
func (c *Ctx) opsRun(name string) *Run {
	return c.Run("pkg/operations", "Operations", name, RunOpt{Visits: 2, Key: "ops2", MaxItems: 3000000})
}

// opsWriters lists the exported Operations methods that can write a header.
func (c *Ctx) opsWriters() []*Run {
	var out []*Run
	for _, fn := range c.P.Methods("pkg/operations", "Operations") {
		if !fn.Object().Exported() || strings.HasPrefix(fn.Name(), "Get") {
			continue
		}
		r := c.RunFn(fn, RunOpt{Visits: 2, Key: "ops2", MaxItems: 3000000})
		w := false
		for _, x := range r.Exits {
			if find(x.events(), named(tarWriteHeader)) != nil {
				w = true
				break
			}
		}
		if w {
			out = append(out, r)
		}
	}
	return out
}

const (
	tarWriteHeader = "(*archive/tar.Writer).WriteHeader"
	tarNewWriter   = "archive/tar.NewWriter"
	evGetWriter    = "dyn:BackendConfig.GetWriter"
	evCloseWriter  = "dyn:BackendConfig.CloseWriter"
	evGetReader    = "dyn:BackendConfig.GetReader"
	evCloseReader  = "dyn:BackendConfig.CloseReader"
	mp             = "(pkg/config.MetadataPersister)."
)

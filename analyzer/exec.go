package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable step on an abstract path: a call of something the
// analysis does not look into (a library function, an interface method, a
// function value, or one of the repository's own entry points that the
// analysis at hand treats as primitive).
type Event struct {
	Callee  string
	Args    []*Term // receiver first
	Snap    []*Term // what pointer arguments point to at the time of the call (nil entries: not a tracked pointer)
	Results []*Term
	Occ     int
	Pos     token.Pos
	In      *ssa.Function
	Frame   *FrameInfo
	Kind    string // "call", "go", "panic", "loop", "append", "send"
	St      *State // state right before the call, kept when an argument is a closure
	Facts   map[*Term]bool
	DynTy   types.Type
	key     string
}

type Trace struct {
	Prev *Trace
	Ev   *Event
	N    int
	id   int
}

func (t *Trace) Events() []*Event {
	n := 0
	if t != nil {
		n = t.N
	}
	out := make([]*Event, n)
	for x := t; x != nil; x = x.Prev {
		out[x.N-1] = x.Ev
	}
	return out
}

type State struct {
	mem     map[*Term]*Term
	memHash uint64
	facts   map[*Term]bool
	trace   *Trace
	occ     map[string]int
	frozen  bool // facts is shared with an event
}

func (s *State) thaw() {
	if s.frozen {
		n := make(map[*Term]bool, len(s.facts)+2)
		for k, v := range s.facts {
			n[k] = v
		}
		s.facts, s.frozen = n, false
	}
}

// meet keeps what both states know.
func (s *State) meet(o *State) {
	s.thaw()
	for t, v := range s.facts {
		if w, ok := o.facts[t]; !ok || w != v {
			delete(s.facts, t)
		}
	}
	for k, n := range o.occ {
		if s.occ[k] < n {
			s.occ[k] = n
		}
	}
}

func (s *State) clone() *State {
	n := &State{memHash: s.memHash, trace: s.trace}
	n.mem = make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.occ = make(map[string]int, len(s.occ)+4)
	for k, v := range s.occ {
		n.occ[k] = v
	}
	return n
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, occ: map[string]int{}}
}

func mix(a, b int) uint64 {
	x := uint64(a)*0x9E3779B97F4A7C15 ^ uint64(b)*0xC2B2AE3D27D4EB4F
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func (s *State) set(a, v *Term) {
	if old, ok := s.mem[a]; ok {
		s.memHash ^= mix(a.ID, old.ID)
	}
	s.mem[a] = v
	s.memHash ^= mix(a.ID, v.ID)
}

func (s *State) del(a *Term) {
	if old, ok := s.mem[a]; ok {
		s.memHash ^= mix(a.ID, old.ID)
		delete(s.mem, a)
	}
}

type FrameInfo struct {
	Fn     *ssa.Function
	Ctx    string
	Parent *FrameInfo
	Depth  int
	Pos    token.Pos // call position
}

type deferred struct {
	call  *ssa.Defer
	fn    *Term
	args  []*Term
	next  *deferred
	depth int
}

type Exit struct {
	St      *State
	Results []*Term
	Kind    string // "return", "panic", "cut", "stop"
	Pos     token.Pos
}

type item struct {
	blk, pred *ssa.BasicBlock
	env       map[ssa.Value]*Term
	st        *State
	visits    map[*ssa.BasicBlock]int
	back      int
	defers    *deferred
	merged    int
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	livein map[*ssa.BasicBlock][]ssa.Value
	inner  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // loop header -> blocks in its loop
	back   map[[2]int]bool
}

type Engine struct {
	NoCounters bool
	P          *Program
	tt         *termTable
	traces     map[string]*Trace
	Inline     func(*ssa.Function) bool
	MaxVisits  int
	MaxItems   int
	MaxDepth   int
	Stop       func(*Event) bool // cut a path after this event
	NoMerge    bool
	Relevant   func(*Event) bool // nil: every event stays on the trace
	// Override supplies the value of a result (slot i) or of what is left behind
	// argument i (slot 100+i) of a call in a scenario.
	cur        *State // the state of the event being made (for Override)
	relDiffer  bool   // different relative path symbols are different names
	Override   func(ev *Event, slot int, typ types.Type) *Term
	CounterAt  func(st *State, addr *Term) *Term // the value of a counting reader, if known
	Access     func(st *State, fr *FrameInfo, addr *Term, write bool, pos token.Pos)
	Observe    func(*Event, *State) // called for every event as it happens
	items      int
	overflow   bool
	infos      map[*ssa.Function]*fnInfo
	initDone   map[*ssa.Package]bool
	initMem    map[*Term]*Term
	inInit     int
	fnsSeen    map[*ssa.Function]bool
	nevents    int
	nexits     int
	unknown    map[string]bool
	sinks      int
	sinkEvents bool                        // keep calls of notification callbacks on the trace
	nilSinks   map[token.Pos]*ssa.Function // notification callbacks called without a nil check
	hazards    map[token.Pos]hazard        // places where a path may crash
	safeUses   map[token.Pos]*ssa.Function // uses that were shown not to
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, tt: newTermTable(), traces: map[string]*Trace{}, MaxVisits: 3, MaxItems: 400000, MaxDepth: 40,
		infos: map[*ssa.Function]*fnInfo{}, initDone: map[*ssa.Package]bool{}, initMem: map[*Term]*Term{},
		fnsSeen: map[*ssa.Function]bool{}, unknown: map[string]bool{}, nilSinks: map[token.Pos]*ssa.Function{}, hazards: map[token.Pos]hazard{}, safeUses: map[token.Pos]*ssa.Function{}}
}

// ---- function preparation --------------------------------------------

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, livein: map[*ssa.BasicBlock][]ssa.Value{}, inner: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, back: map[[2]int]bool{}}
	e.infos[fn] = fi
	// reverse post order
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	onstack := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onstack[b] = true
		// visit successors in reverse order so that loop bodies come before loop exits
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if onstack[s] {
				fi.back[[2]int{b.Index, s.Index}] = true
			}
			if !seen[s] {
				dfs(s)
			}
		}
		onstack[b] = false
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range order {
		fi.rpo[b] = len(order) - i
	}
	// natural loops
	for be := range fi.back {
		h := fn.Blocks[be[1]]
		t := fn.Blocks[be[0]]
		set := fi.inner[h]
		if set == nil {
			set = map[*ssa.BasicBlock]bool{h: true}
			fi.inner[h] = set
		}
		var st []*ssa.BasicBlock
		if !set[t] {
			set[t] = true
			st = append(st, t)
		}
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			for _, p := range b.Preds {
				if !set[p] {
					set[p] = true
					st = append(st, p)
				}
			}
		}
	}
	// liveness
	idx := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { idx[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		_, ok := idx[v]
		return ok
	}
	changed := true
	var rands []*ssa.Value
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if pi >= 0 && track(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
				for v := range live[s] {
					if !phis[v] {
						cur[v] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					if *r != nil && track(*r) {
						cur[*r] = true
					}
				}
			}
			// phi edges coming into b are live at the end of the predecessors: keep
			// them in the live-in of b keyed by operand so that merging is exact
			if len(cur) != len(live[b]) {
				live[b] = cur
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		set := map[ssa.Value]bool{}
		for v := range live[b] {
			set[v] = true
		}
		var vs []ssa.Value
		for v := range set {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return idx[vs[i]] < idx[vs[j]] })
		fi.livein[b] = vs
	}
	return fi
}

// ---- running a function ----------------------------------------------

// Run analyses fn from a state with the given arguments.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term) []*Exit {
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = e.Params(fn)
	}
	ex := e.runFunc(st, fn, args, nil, nil, token.NoPos)
	e.nexits += len(ex)
	return ex
}

// Params makes one opaque term per parameter.
func (e *Engine) Params(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "p" + strconv.Itoa(i)
		}
		out = append(out, e.sym(n, p.Type()))
	}
	return out
}

func (e *Engine) runFunc(st *State, fn *ssa.Function, args []*Term, binds []*Term, parent *FrameInfo, pos token.Pos) []*Exit {
	e.fnsSeen[fn] = true
	fr := &FrameInfo{Fn: fn, Parent: parent, Pos: pos}
	if parent != nil {
		fr.Depth = parent.Depth + 1
		fr.Ctx = parent.Ctx + ">" + fn.Name()
	} else {
		fr.Ctx = fn.Name()
	}
	// distinguish several calls of the same function from the same frame
	st.occ["call:"+fr.Ctx]++
	if n := st.occ["call:"+fr.Ctx]; n > 1 {
		fr.Ctx += "#" + strconv.Itoa(n)
	}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = e.sym("missing:"+p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			env[fv] = binds[i]
		} else {
			env[fv] = e.tt.mk("alloc", "free:"+fn.Name()+"."+fv.Name(), fv.Type())
			if env[fv].Typ == nil {
				env[fv].Typ = fv.Type()
			}
			env[fv] = e.sym("free:"+fv.Name(), fv.Type())
		}
	}
	fi := e.info(fn)
	var exits []*Exit
	var work []*item
	byKey := map[string]*item{}
	push := func(it *item) {
		if !e.NoMerge {
			k := e.mergeKey(fi, it)
			if old, ok := byKey[k]; ok {
				// same block, same live values, same memory, same trace: keep the
				// facts both paths agree on
				old.st.meet(it.st)
				old.merged++
				return
			}
			byKey[k] = it
		}
		work = append(work, it)
	}
	push(&item{blk: fn.Blocks[0], env: env, st: st, visits: map[*ssa.BasicBlock]int{}})
	for len(work) > 0 {
		// pick the item with the fewest back edges, then the smallest RPO number
		best := 0
		for i := 1; i < len(work); i++ {
			a, b := work[i], work[best]
			if a.back < b.back || a.back == b.back && fi.rpo[a.blk] < fi.rpo[b.blk] {
				best = i
			}
		}
		it := work[best]
		work[best] = work[len(work)-1]
		work = work[:len(work)-1]
		if !e.NoMerge {
			delete(byKey, e.mergeKey(fi, it))
		}
		e.items++
		if e.items > e.MaxItems || e.items&255 == 0 && time.Now().After(deadline) {
			e.overflow = true
			return exits
		}
		e.runBlock(fr, fi, it, push, &exits)
	}
	if parent != nil {
		for _, x := range exits {
			e.gc(x, fr.Ctx)
		}
		exits = e.mergeExits(exits)
	}
	return exits
}

// mergeExits joins returns that are indistinguishable to the caller.
func (e *Engine) mergeExits(xs []*Exit) []*Exit {
	if e.NoMerge {
		return xs
	}
	by := map[string]*Exit{}
	var out []*Exit
	for _, x := range xs {
		var sb strings.Builder
		sb.WriteString(x.Kind)
		for _, r := range x.Results {
			fmt.Fprintf(&sb, ",%d", r.ID)
		}
		tid := 0
		if x.St.trace != nil {
			tid = x.St.trace.id
		}
		fmt.Fprintf(&sb, "|%d|%x|%d|%d", tid, x.St.memHash, len(x.St.mem), e.lastOutcome(x.St))
		if old, ok := by[sb.String()]; ok {
			old.St.meet(x.St)
			continue
		}
		by[sb.String()] = x
		out = append(out, x)
	}
	return out
}

// gc forgets cells of the finished frame that nothing can reach any more.
func (e *Engine) gc(x *Exit, ctx string) {
	own := func(t *Term) bool {
		return (t.Op == "alloc" || t.Op == "makemap") && strings.HasPrefix(t.Name, ctx) && (len(t.Name) == len(ctx) || strings.IndexByte("/>#", t.Name[len(ctx)]) >= 0)
	}
	anyOwn := false
	for a := range x.St.mem {
		if own(root(a)) {
			anyOwn = true
			break
		}
	}
	if !anyOwn {
		return
	}
	mark := map[*Term]bool{}
	var visit func(t *Term)
	byRoot := map[*Term][]*Term{}
	for a := range x.St.mem {
		byRoot[root(a)] = append(byRoot[root(a)], a)
	}
	visit = func(t *Term) {
		if t == nil || mark[t] {
			return
		}
		mark[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if own(t) {
			for _, a := range byRoot[t] {
				visit(a)
				visit(x.St.mem[a])
			}
		}
	}
	for _, r := range x.Results {
		visit(r)
	}
	for a, v := range x.St.mem {
		if !own(root(a)) {
			visit(a)
			visit(v)
		}
	}
	for t := x.St.trace; t != nil; t = t.Prev {
		for _, a := range t.Ev.Args {
			if a.Op == "closure" {
				visit(a)
			}
		}
	}
	for a := range x.St.mem {
		if r := root(a); own(r) && !mark[r] {
			x.St.del(a)
		}
	}
}

func root(a *Term) *Term {
	for {
		switch a.Op {
		case "fldaddr", "mapel":
			a = a.Args[0]
		case "idx":
			a = a.Args[0]
			if a.Op == "sliceof" {
				a = a.Args[0]
			}
		default:
			return a
		}
	}
}

func (e *Engine) mergeKey(fi *fnInfo, it *item) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", it.blk.Index)
	// the predecessor matters only through the phi values
	if it.pred != nil {
		pi := predIndex(it.pred, it.blk)
		for _, in := range it.blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fmt.Fprintf(&sb, "p%d,", e.val(it.env, ph.Edges[pi]).ID)
		}
	}
	for _, v := range fi.livein[it.blk] {
		if t, ok := it.env[v]; ok {
			fmt.Fprintf(&sb, "%d,", t.ID)
		} else {
			sb.WriteString("-,")
		}
	}
	tid := 0
	if it.st.trace != nil {
		tid = it.st.trace.id
	}
	fmt.Fprintf(&sb, "|%d|%x|%d|%d|", tid, it.st.memHash, len(it.st.mem), e.lastOutcome(it.st))
	var vs []string
	for b, n := range it.visits {
		vs = append(vs, fmt.Sprintf("%d:%d", b.Index, n))
	}
	sort.Strings(vs)
	sb.WriteString(strings.Join(vs, ","))
	for d := it.defers; d != nil; d = d.next {
		fmt.Fprintf(&sb, "|d%p", d.call)
		for _, a := range d.args {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
		if d.fn != nil {
			fmt.Fprintf(&sb, ",f%d", d.fn.ID)
		}
	}
	return sb.String()
}

// lastOutcome keeps the success and the failure of the latest call apart.
func (e *Engine) lastOutcome(st *State) int {
	if st.trace == nil || st.trace.Ev == nil {
		return 0
	}
	er := st.trace.Ev.err()
	if er == nil {
		return 0
	}
	return e.known(st, e.eq(er, e.mkNil()))
}

func predIndex(p, b *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return 0
}

func (e *Engine) runBlock(fr *FrameInfo, fi *fnInfo, it *item, push func(*item), exits *[]*Exit) {
	b := it.blk
	// loop bookkeeping
	if _, isHeader := fi.inner[b]; isHeader {
		n := it.visits[b] + 1
		if it.pred == nil || !fi.inner[b][it.pred] {
			n = 1
		}
		if n > e.MaxVisits && !e.constLoop(it, fi) {
			*exits = append(*exits, &Exit{St: it.st, Kind: "cut", Pos: blockPos(b)})
			return
		}
		if n > 60 {
			*exits = append(*exits, &Exit{St: it.st, Kind: "cut", Pos: blockPos(b)})
			return
		}
		v := make(map[*ssa.BasicBlock]int, len(it.visits)+1)
		for k, x := range it.visits {
			// counts of loops nested inside this one start over
			if k != b && fi.inner[b][k] {
				if _, h := fi.inner[k]; h {
					continue
				}
			}
			v[k] = x
		}
		v[b] = n
		it.visits = v
	}
	env := it.env
	// phis (in parallel)
	if it.pred != nil {
		pi := predIndex(it.pred, b)
		var phs []*ssa.Phi
		var vals []*Term
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phs = append(phs, ph)
			vals = append(vals, e.val(env, ph.Edges[pi]))
		}
		ne := map[ssa.Value]*Term{}
		for _, v := range fi.livein[b] {
			if t, ok := env[v]; ok {
				ne[v] = t
			}
		}
		for i, ph := range phs {
			ne[ph] = vals[i]
		}
		env = ne
	}
	e.exec(fr, fi, it, 0, env, it.st, it.defers, push, exits)
}

// constLoop: the loop condition at this header is decided by constants, so
// following it further loses nothing (bounded by a hard cap).
func (e *Engine) constLoop(it *item, fi *fnInfo) bool {
	b := it.blk
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || it.pred == nil {
		return false
	}
	pi := predIndex(it.pred, b)
	env := map[ssa.Value]*Term{}
	for k, v := range it.env {
		env[k] = v
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			env[x] = e.val(it.env, x.Edges[pi])
		case *ssa.BinOp:
			env[x] = e.binop(x, e.val(env, x.X), e.val(env, x.Y))
		case *ssa.If:
			c := e.decide(it.st, e.val(env, iff.Cond))
			return c.isBool() && e.val(env, iff.Cond).isBool()
		default:
			return false
		}
	}
	return false
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func (e *Engine) val(env map[ssa.Value]*Term, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.tt.mk("global", x.Pkg.Pkg.Path()+"."+x.Name(), x.Type())
	case *ssa.Function:
		t := e.tt.mk("func", fnName(x), x.Type())
		t.Fn = x
		return t
	case *ssa.Builtin:
		return e.tt.mk("builtin", x.Name(), nil)
	}
	if t, ok := env[v]; ok {
		return t
	}
	e.unknown["value "+v.Name()+" in "+fnName(v.Parent())] = true
	return e.sym("undef:"+fnName(v.Parent())+":"+v.Name(), v.Type())
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return e.tt.mk("zero", c.Type().String(), c.Type())
		}
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return e.mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return e.mkInt(n)
		}
		return e.tt.mk("flt", c.Value.ExactString(), nil)
	case constant.Float:
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			if n, ok := constant.Int64Val(i); ok {
				return e.mkInt(n)
			}
		}
		return e.tt.mk("flt", c.Value.ExactString(), nil)
	}
	return e.tt.mk("flt", c.Value.ExactString(), nil)
}

// exec runs instructions i.. of the block.
func (e *Engine) exec(fr *FrameInfo, fi *fnInfo, it *item, i int, env map[ssa.Value]*Term, st *State, defers *deferred, push func(*item), exits *[]*Exit) {
	b := it.blk
	for ; i < len(b.Instrs); i++ {
		if e.overflow {
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := e.fresh(st, "alloc", fr, x, x.Type())
			env[x] = t
		case *ssa.BinOp:
			env[x] = e.binop(x, e.val(env, x.X), e.val(env, x.Y))
		case *ssa.UnOp:
			v := e.val(env, x.X)
			switch x.Op {
			case token.MUL:
				e.useOf(st, fr, v, x.Pos())
				if e.Access != nil {
					e.Access(st, fr, v, false, x.Pos())
				}
				env[x] = e.load(st, v, x.Type())
			case token.NOT:
				env[x] = e.not(v)
			case token.SUB:
				env[x] = e.sub(e.mkInt(0), v)
			case token.ARROW:
				ev := e.event(st, fr, "chan.recv", []*Term{v}, nil, x.Pos(), "call")
				rs := e.results(ev, tupleTypes(x.Type(), x.CommaOk))
				if x.CommaOk {
					env[x] = e.tt.mk("tuple", "", nil, rs...)
				} else {
					env[x] = rs[0]
				}
			default:
				env[x] = e.app("un"+x.Op.String(), v)
			}
		case *ssa.ChangeType:
			env[x] = e.val(env, x.X)
		case *ssa.Convert:
			env[x] = e.convert(e.val(env, x.X), x.X.Type(), x.Type())
		case *ssa.MultiConvert:
			env[x] = e.val(env, x.X)
		case *ssa.ChangeInterface:
			env[x] = e.val(env, x.X)
		case *ssa.SliceToArrayPointer:
			env[x] = e.app("slice2arr", e.val(env, x.X))
		case *ssa.MakeInterface:
			env[x] = e.iface(e.val(env, x.X), x.X.Type())
		case *ssa.MakeClosure:
			var bs []*Term
			for _, bnd := range x.Bindings {
				bs = append(bs, e.val(env, bnd))
			}
			f := x.Fn.(*ssa.Function)
			t := e.tt.mk("closure", fnName(f), x.Type(), bs...)
			t.Fn = f
			env[x] = t
		case *ssa.MakeMap:
			env[x] = e.fresh(st, "makemap", fr, x, x.Type())
		case *ssa.MakeChan:
			env[x] = e.app("makechan", e.fresh(st, "alloc", fr, x, x.Type()))
		case *ssa.MakeSlice:
			a := e.fresh(st, "alloc", fr, x, x.Type())
			env[x] = e.app("makeslice", a, e.val(env, x.Len))
		case *ssa.Slice:
			env[x] = e.slice(e.val(env, x.X), x, env)
		case *ssa.FieldAddr:
			e.useOf(st, fr, e.val(env, x.X), x.Pos())
			env[x] = e.fieldAddr(e.val(env, x.X), derefStruct(x.X.Type()).Field(x.Field))
		case *ssa.Field:
			f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
			env[x] = e.field(e.val(env, x.X), f.Name(), f.Type())
		case *ssa.IndexAddr:
			e.elementUse(st, fr, e.val(env, x.X), e.val(env, x.Index), x.X.Type(), x.Pos())
			env[x] = e.indexAddr(e.val(env, x.X), e.val(env, x.Index), x.Type())
		case *ssa.Index:
			if t := e.strIndex(st, strip(e.val(env, x.X)), strip(e.val(env, x.Index))); t != nil {
				env[x] = t
				continue
			}
			env[x] = e.app("index", e.val(env, x.X), e.val(env, x.Index))
		case *ssa.Lookup:
			// map lookup with an unknown key in a literal map: one path per key
			m, k := e.val(env, x.X), strip(e.val(env, x.Index))
			if strip(m).Op == "makemap" && !k.constLike() {
				keys := e.mapKeys(st, strip(m))
				if len(keys) > 0 && len(keys) <= 16 {
					for _, kt := range keys {
						c := e.eq(k, kt)
						st2 := st.clone()
						if !e.assume(st2, c, true) {
							continue
						}
						e.assume(st, c, false)
						env2 := cloneEnv(env)
						env2[x] = e.lookup(st2, m, kt, x)
						e.exec(fr, fi, it, i+1, env2, st2, defers, push, exits)
					}
					// none of the keys
					vt := x.X.Type().Underlying().(*types.Map).Elem()
					if x.CommaOk {
						env[x] = e.tt.mk("tuple", "", nil, e.zero(vt), e.mkBool(false))
					} else {
						env[x] = e.zero(vt)
					}
					continue
				}
			}
			env[x] = e.lookup(st, m, k, x)
		case *ssa.Range:
			env[x] = e.app("range", e.val(env, x.X))
		case *ssa.Next:
			r := e.val(env, x.Iter)
			ev := e.event(st, fr, "range.next", []*Term{r}, nil, x.Pos(), "next")
			tu := x.Type().(*types.Tuple)
			var ts []types.Type
			for k := 0; k < tu.Len(); k++ {
				ts = append(ts, tu.At(k).Type())
			}
			env[x] = e.tt.mk("tuple", "", nil, e.results(ev, ts)...)
		case *ssa.Select:
			ev := e.event(st, fr, "select", nil, nil, x.Pos(), "call")
			tu := x.Type().(*types.Tuple)
			var ts []types.Type
			for k := 0; k < tu.Len(); k++ {
				ts = append(ts, tu.At(k).Type())
			}
			env[x] = e.tt.mk("tuple", "", nil, e.results(ev, ts)...)
		case *ssa.Send:
			e.event(st, fr, "chan.send", []*Term{e.val(env, x.Chan), e.val(env, x.X)}, nil, x.Pos(), "send")
		case *ssa.Extract:
			t := e.val(env, x.Tuple)
			if t.Op == "tuple" {
				env[x] = t.Args[x.Index]
			} else {
				env[x] = e.app("extract"+strconv.Itoa(x.Index), t)
			}
		case *ssa.TypeAssert:
			if !x.CommaOk && !types.IsInterface(x.AssertedType) || !x.CommaOk && strip(e.val(env, x.X)).isNil() {
				if v := strip(e.val(env, x.X)); v.Op != "iface" && e.known(st, e.app("istype["+x.AssertedType.String()+"]", v)) != 1 {
					e.crash(st, fr, x.Pos(), "a type assertion may fail", v)
				}
			}
			env[x] = e.typeAssert(e.val(env, x.X), x)
		case *ssa.Store:
			e.useOf(st, fr, e.val(env, x.Addr), x.Pos())
			if e.Access != nil {
				e.Access(st, fr, e.val(env, x.Addr), true, x.Pos())
			}
			e.store(st, e.val(env, x.Addr), e.val(env, x.Val))
		case *ssa.MapUpdate:
			m := strip(e.val(env, x.Map))
			k := strip(e.val(env, x.Key))
			e.mapWrite(st, fr, m, x.Pos())
			st.set(e.tt.mk("mapel", "", x.Map.Type().Underlying().(*types.Map).Elem(), m, k), e.val(env, x.Value))
		case *ssa.Go:
			f, args := e.callee(env, x.Common())
			ev := e.event(st, fr, "go", append([]*Term{f}, args...), nil, x.Pos(), "go")
			if ev.St == nil {
				ev.St = st.clone()
			} else {
				ev.St.meet(st)
			}
		case *ssa.Defer:
			f, args := e.callee(env, x.Common())
			d := &deferred{call: x, fn: f, args: args, next: defers}
			if defers != nil {
				d.depth = defers.depth + 1
			}
			defers = d
		case *ssa.RunDefers:
			e.runDefers(fr, st, defers, func(st2 *State) {
				e.exec(fr, fi, it, i+1, cloneEnv(env), st2, nil, push, exits)
			}, exits)
			return
		case *ssa.Call:
			done := e.doCall(fr, st, x.Common(), env, x, x.Pos(), func(st2 *State, r *Term) {
				env2 := cloneEnv(env)
				env2[x] = r
				e.exec(fr, fi, it, i+1, env2, st2, defers, push, exits)
			}, exits)
			if done == nil {
				return
			}
			env[x] = done
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(env, r))
			}
			*exits = append(*exits, &Exit{St: st, Results: rs, Kind: "return", Pos: x.Pos()})
			return
		case *ssa.Panic:
			ev := e.event(st, fr, "panic", []*Term{e.val(env, x.X)}, nil, x.Pos(), "panic")
			_ = ev
			*exits = append(*exits, &Exit{St: st, Kind: "panic", Pos: x.Pos()})
			return
		case *ssa.Jump:
			e.goTo(fi, it, b.Succs[0], env, st, defers, push)
			return
		case *ssa.If:
			c := e.decide(st, e.val(env, x.Cond))
			if c.isTrue() {
				e.goTo(fi, it, b.Succs[0], env, st, defers, push)
				return
			}
			if c.isFalse() {
				e.goTo(fi, it, b.Succs[1], env, st, defers, push)
				return
			}
			st2 := st.clone()
			if e.assume(st2, c, true) {
				e.goTo(fi, it, b.Succs[0], cloneEnv(env), st2, defers, push)
			}
			if e.assume(st, c, false) {
				e.goTo(fi, it, b.Succs[1], env, st, defers, push)
			}
			return
		default:
			e.unknown[fmt.Sprintf("instruction %T", in)] = true
			if v, ok := in.(ssa.Value); ok {
				env[v] = e.sym(fmt.Sprintf("unk:%T:%s", in, v.Name()), v.Type())
			}
		}
	}
}

func tupleTypes(t types.Type, commaOk bool) []types.Type {
	if tu, ok := t.(*types.Tuple); ok && commaOk {
		var ts []types.Type
		for k := 0; k < tu.Len(); k++ {
			ts = append(ts, tu.At(k).Type())
		}
		return ts
	}
	return []types.Type{t}
}

func cloneEnv(env map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(env)+4)
	for k, v := range env {
		n[k] = v
	}
	return n
}

func (e *Engine) goTo(fi *fnInfo, it *item, to *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, defers *deferred, push func(*item)) {
	n := &item{blk: to, pred: it.blk, env: env, st: st, visits: it.visits, back: it.back, defers: defers}
	if fi.back[[2]int{it.blk.Index, to.Index}] {
		n.back++
		// mark the end of an iteration on the trace
		e.addEvent(st, &Event{Callee: "loop", Kind: "loop", Pos: blockPos(to), In: it.blk.Parent(), Args: []*Term{e.mkInt(int64(to.Index))}})
	}
	// leaving a loop forgets its count
	var drop []*ssa.BasicBlock
	for h := range n.visits {
		if set := fi.inner[h]; set != nil && !set[to] {
			drop = append(drop, h)
		}
	}
	if drop != nil {
		v := make(map[*ssa.BasicBlock]int, len(n.visits))
		for k, x := range n.visits {
			v[k] = x
		}
		for _, h := range drop {
			delete(v, h)
		}
		n.visits = v
	}
	push(n)
}

func (e *Engine) runDefers(fr *FrameInfo, st *State, d *deferred, k func(*State), exits *[]*Exit) {
	if d == nil {
		k(st)
		return
	}
	r := e.invokeTerm(fr, st, d.call.Common(), d.fn, d.args, d.call, d.call.Pos(), func(st2 *State, _ *Term) {
		e.runDefers(fr, st2, d.next, k, exits)
	}, exits)
	if r != nil {
		e.runDefers(fr, st, d.next, k, exits)
	}
}

// ---- memory ----------------------------------------------------------

func (e *Engine) fresh(st *State, op string, fr *FrameInfo, in ssa.Instruction, typ types.Type) *Term {
	v := in.(ssa.Value)
	key := fr.Ctx + "/" + v.Name()
	st.occ[key]++
	n := key
	if c := st.occ[key]; c > 1 {
		n = key + "#" + strconv.Itoa(c)
	}
	t := e.tt.mk(op, n, typ)
	return t
}

func derefStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (e *Engine) fieldAddr(base *Term, f *types.Var) *Term {
	return e.tt.mk("fldaddr", f.Name(), types.NewPointer(f.Type()), strip(base))
}

func (e *Engine) indexAddr(base, idx *Term, typ types.Type) *Term {
	base, idx = strip(base), strip(idx)
	switch base.Op {
	case "sliceof":
		return e.tt.mk("idx", "", typ, base.Args[0], idx)
	case "app":
		if base.Name == "slice" && base.Args[1].isInt() {
			return e.indexAddr(base.Args[0], e.add(base.Args[1], idx), typ)
		}
	}
	return e.tt.mk("idx", "", typ, base, idx)
}

// elem is the value of s[i] when nothing has been stored there explicitly.
func (e *Engine) elem(st *State, s, i *Term, typ types.Type) *Term {
	s = strip(s)
	switch {
	case s.Op == "alloc":
		return e.zero(typ)
	case s.isApp("makeslice"):
		return e.zero(typ)
	case s.Op == "sliceof":
		return e.load(st, e.tt.mk("idx", "", types.NewPointer(typ), s.Args[0], i), typ)
	case s.isApp("append") && i.isInt():
		l := e.length(s.Args[0])
		if l.isInt() {
			if i.intVal() < l.intVal() {
				return e.load(st, e.indexAddr(s.Args[0], i, types.NewPointer(typ)), typ)
			}
			k := int(i.intVal() - l.intVal())
			if k+1 < len(s.Args) {
				return s.Args[k+1]
			}
		}
	case s.isApp("appendslice") && i.isInt():
		l := e.length(s.Args[0])
		if l.isInt() {
			if i.intVal() < l.intVal() {
				return e.load(st, e.indexAddr(s.Args[0], i, types.NewPointer(typ)), typ)
			}
			return e.load(st, e.indexAddr(s.Args[1], e.sub(i, l), types.NewPointer(typ)), typ)
		}
	}
	return e.tt.mk("elem", "", typ, s, i)
}

// visible: the string contains something else than spaces for sure.
func visible(t *Term) bool {
	for _, p := range parts(strip(t)) {
		if p.isStr() && strings.TrimSpace(p.Name) != "" {
			return true
		}
	}
	return false
}

func (e *Engine) length(s *Term) *Term {
	s = strip(s)
	switch {
	case s.isStr():
		return e.mkInt(int64(len(s.Name)))
	case s.isNil():
		return e.mkInt(0)
	case isRel(s):
		return e.add(e.mkInt(1), e.app("len1", s))
	case s.isApp("strings.TrimSpace") && len(s.Args) == 1 && visible(s.Args[0]):
		return e.add(e.mkInt(1), e.app("len1", s))
	case s.isApp("cat"):
		n := e.mkInt(0)
		for _, p := range s.Args {
			n = e.add(n, e.length(p))
		}
		return n
	case s.Op == "sliceof":
		n, _ := strconv.ParseInt(s.Name, 10, 64)
		return e.mkInt(n)
	case s.isApp("makeslice"):
		return s.Args[1]
	case s.isApp("append"):
		return e.add(e.length(s.Args[0]), e.mkInt(int64(len(s.Args)-1)))
	case s.isApp("appendslice"):
		return e.add(e.length(s.Args[0]), e.length(s.Args[1]))
	case s.isApp("slice"):
		if !s.Args[2].isNil() {
			return e.sub(s.Args[2], s.Args[1])
		}
		return e.sub(e.length(s.Args[0]), s.Args[1])
	}
	return e.app("len", s)
}

func (e *Engine) slice(v *Term, x *ssa.Slice, env map[ssa.Value]*Term) *Term {
	v = strip(v)
	lo, hi := e.mkInt(0), e.mkNil()
	if x.Low != nil {
		lo = e.val(env, x.Low)
	}
	if x.High != nil {
		hi = e.val(env, x.High)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			base := e.tt.mk("sliceof", strconv.FormatInt(arr.Len(), 10), x.Type(), v)
			if x.Low == nil && x.High == nil {
				return base
			}
			if lo.isInt() && lo.intVal() == 0 && hi.isInt() {
				return e.tt.mk("sliceof", hi.Name, x.Type(), v)
			}
			return e.tt.mk("app", "slice", x.Type(), base, lo, hi)
		}
	}
	if lo.isInt() && lo.intVal() == 0 && hi.isNil() {
		return v
	}
	if v.isStr() && lo.isInt() && (hi.isNil() || hi.isInt()) {
		l, h := lo.intVal(), int64(len(v.Name))
		if hi.isInt() {
			h = hi.intVal()
		}
		if l >= 0 && l <= h && h <= int64(len(v.Name)) {
			return e.mkStr(v.Name[l:h])
		}
	}
	if t := e.strSlice(v, lo, hi); t != nil {
		return t
	}
	return e.tt.mk("app", "slice", x.Type(), v, lo, hi)
}

// load reads memory at addr.
func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	addr = strip(addr)
	if c := e.counter(st, addr, typ); c != nil {
		return c
	}
	base, ok := st.mem[addr]
	if !ok {
		base = e.initial(st, addr, typ)
	}
	if typ == nil {
		return base
	}
	if s, isStruct := typ.Underlying().(*types.Struct); isStruct {
		var names []string
		var vals []*Term
		e.overrides(st, addr, s, func(n string, v *Term) {
			names = append(names, n)
			vals = append(vals, v)
		})
		if len(names) > 0 {
			base = e.with(base, names, vals)
		}
	}
	return base
}

// counter: the value of an integer field of a local object that a Read or Write
// method of the repository's own type updates. Such methods run behind library
// calls, so the value is tied to the position in the trace it is read at.
func (e *Engine) counter(st *State, addr *Term, typ types.Type) *Term {
	if e.NoCounters || addr.Op != "fldaddr" || addr.Args[0].Op != "alloc" || typ == nil {
		return nil
	}
	if b, ok := typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	o := addr.Args[0].Typ
	if o == nil || !e.isCounterField(o, addr.Name) {
		return nil
	}
	if e.CounterAt != nil {
		if t := e.CounterAt(st, addr); t != nil {
			return t
		}
	}
	id := 0
	if st.trace != nil {
		id = st.trace.id
	}
	return e.tt.mk("app", "counter", typ, addr, e.mkInt(int64(id)))
}

func (e *Engine) isCounterField(ptr types.Type, field string) bool {
	k := ptr.String() + "." + field
	if v, ok := e.P.counters[k]; ok {
		return v
	}
	res := false
	p, ok := ptr.Underlying().(*types.Pointer)
	if ok {
		n, isN := types.Unalias(p.Elem()).(*types.Named)
		if isN && n.Obj().Pkg() != nil && e.P.repoPkg(n.Obj().Pkg().Path()) {
			if s, isS := n.Underlying().(*types.Struct); isS && s.NumFields() <= 3 {
				for _, m := range []string{"Read", "Write"} {
					sel := e.P.Prog.MethodSets.MethodSet(ptr).Lookup(n.Obj().Pkg(), m)
					if sel == nil {
						continue
					}
					fn := e.P.Prog.MethodValue(sel)
					if fn == nil || len(fn.Params) == 0 {
						continue
					}
					res = res || storesField(fn, s, field, map[*ssa.Function]bool{})
				}
			}
		}
	}
	e.P.counters[k] = res
	return res
}

// storesField: the function, a function literal in it or a function of its
// package that it calls assigns to the field.
func storesField(fn *ssa.Function, s *types.Struct, field string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch w := in.(type) {
			case *ssa.Store:
				if fa, ok := w.Addr.(*ssa.FieldAddr); ok && derefStruct(fa.X.Type()) == s && s.Field(fa.Field).Name() == field {
					return true
				}
			case ssa.CallInstruction:
				if g := w.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg == fn.Pkg && storesField(g, s, field, seen) {
					return true
				}
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		if storesField(g, s, field, seen) {
			return true
		}
	}
	return false
}

// overrides reports fields of the struct at addr that were stored to
// individually.
func (e *Engine) overrides(st *State, addr *Term, s *types.Struct, f func(string, *Term)) {
	for i := 0; i < s.NumFields(); i++ {
		fa := e.tt.mk("fldaddr", s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), addr)
		if v, ok := st.mem[fa]; ok {
			if ss, isS := s.Field(i).Type().Underlying().(*types.Struct); isS {
				_ = ss
				v = e.load(st, fa, s.Field(i).Type())
			}
			f(s.Field(i).Name(), v)
		} else if ss, isS := s.Field(i).Type().Underlying().(*types.Struct); isS {
			has := false
			e.overrides(st, fa, ss, func(string, *Term) { has = true })
			if has {
				f(s.Field(i).Name(), e.load(st, fa, s.Field(i).Type()))
			}
		}
	}
}

// initial: the value at addr before anything stored there on this path.
func (e *Engine) initial(st *State, addr *Term, typ types.Type) *Term {
	switch addr.Op {
	case "alloc":
		if v, ok := e.initMem[addr]; ok {
			return v
		}
		return e.zero(typ)
	case "global":
		return e.globalVal(addr, typ)
	case "fldaddr":
		p := addr.Args[0]
		if v, ok := e.initMem[addr]; ok {
			return v
		}
		bv, ok := st.mem[p]
		if !ok {
			bv = e.initial(st, p, ptrElem(p.Typ))
		}
		return e.field(bv, addr.Name, typ)
	case "idx":
		if v, ok := e.initMem[addr]; ok {
			return v
		}
		if bv, ok := st.mem[addr.Args[0]]; ok && addr.Args[0].Op == "alloc" {
			return e.tt.mk("elem", "", typ, bv, addr.Args[1])
		}
		return e.elem(st, addr.Args[0], addr.Args[1], typ)
	}
	return e.tt.mk("deref", "", typ, addr)
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

var errorType = types.Universe.Lookup("error").Type()

func (e *Engine) globalVal(g *Term, typ types.Type) *Term {
	if typ != nil && types.Identical(typ, errorType) && !e.P.reassigned[g.Name] {
		n := g.Name
		n = strings.Replace(n, "io/fs.Err", "os.Err", 1)
		t := e.tt.mk("gval", n, typ)
		return t
	}
	if p := e.P.globalPkg(g.Name); p != nil && !e.P.reassigned[g.Name] {
		e.initPkg(p)
		if v, ok := e.initMem[g]; ok {
			return v
		}
	}
	return e.tt.mk("deref", "", typ, g)
}

// initPkg evaluates package-level variable initialisers once.
func (e *Engine) initPkg(p *ssa.Package) {
	if e.initDone[p] {
		return
	}
	e.initDone[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	e.inInit++
	save, sm := e.MaxVisits, e.items
	mt, mi := e.Stop, e.Inline
	e.Stop = nil
	e.Inline = func(*ssa.Function) bool { return false }
	st := newState()
	guard := e.tt.mk("global", p.Pkg.Path()+".init$guard", nil)
	st.set(guard, e.mkBool(false))
	ex := e.runFunc(st, fn, nil, nil, nil, token.NoPos)
	e.MaxVisits, e.items, e.Stop, e.Inline = save, sm, mt, mi
	e.inInit--
	for _, x := range ex {
		if x.Kind == "return" {
			for a, v := range x.St.mem {
				e.initMem[a] = v
			}
			break
		}
	}
}

func (e *Engine) store(st *State, addr, v *Term) {
	addr = strip(addr)
	// drop everything below addr
	var drop []*Term
	for a := range st.mem {
		for x := a; x.Op == "fldaddr" || x.Op == "idx"; {
			x = x.Args[0]
			if x == addr {
				drop = append(drop, a)
				break
			}
		}
	}
	for _, a := range drop {
		st.del(a)
	}
	st.set(addr, v)
}

func (e *Engine) mapKeys(st *State, m *Term) []*Term {
	var ks []*Term
	for a, v := range st.mem {
		if a.Op == "mapel" && a.Args[0] == m && v.Op != "absent" {
			ks = append(ks, a.Args[1])
		}
	}
	for a := range e.initMem {
		if a.Op == "mapel" && a.Args[0] == m {
			if _, ok := st.mem[a]; !ok {
				ks = append(ks, a.Args[1])
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

func (e *Engine) lookup(st *State, m, k *Term, x *ssa.Lookup) *Term {
	m, k = strip(m), strip(k)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		if t := e.strIndex(st, m, k); t != nil {
			return t
		}
		return e.app("index", m, k)
	}
	v, ok := e.mapGet(st, m, k, mt.Elem())
	if x.CommaOk {
		return e.tt.mk("tuple", "", nil, v, ok)
	}
	return v
}

func (e *Engine) mapGet(st *State, m, k *Term, vt types.Type) (*Term, *Term) {
	el := e.tt.mk("mapel", "", vt, m, k)
	v, ok := st.mem[el]
	if !ok {
		v, ok = e.initMem[el]
	}
	if ok {
		if v.Op == "absent" {
			return e.zero(vt), e.mkBool(false)
		}
		return v, e.mkBool(true)
	}
	if m.isNil() {
		return e.zero(vt), e.mkBool(false)
	}
	if m.Op == "makemap" {
		return e.zero(vt), e.mkBool(false)
	}
	return e.tt.mk("app", "mapget", vt, m, k), e.app("maphas", m, k)
}

// mapSnap renders the contents of a map at this point.
func (e *Engine) mapSnap(st *State, m *Term) *Term {
	m = strip(m)
	ks := e.mapKeys(st, m)
	args := []*Term{m}
	for _, k := range ks {
		v, _ := e.mapGet(st, m, k, nil)
		args = append(args, k, v)
	}
	return e.app("mapsnap", args...)
}

// snapshot: contents of the struct at addr, with map fields spelled out.
func (e *Engine) snapshot(st *State, addr *Term, elem types.Type) *Term {
	s, ok := elem.Underlying().(*types.Struct)
	if !ok {
		return e.load(st, addr, elem)
	}
	v := e.load(st, addr, elem)
	return e.snapMaps(st, v, s)
}

func (e *Engine) snapMaps(st *State, v *Term, s *types.Struct) *Term {
	var names []string
	var vals []*Term
	for i := 0; i < s.NumFields(); i++ {
		if _, isMap := s.Field(i).Type().Underlying().(*types.Map); isMap {
			m := e.field(v, s.Field(i).Name(), s.Field(i).Type())
			if m.Op == "makemap" || len(e.mapKeys(st, m)) > 0 {
				names = append(names, s.Field(i).Name())
				vals = append(vals, e.mapSnap(st, m))
			}
		}
	}
	if len(names) > 0 {
		v = e.with(v, names, vals)
	}
	return v
}

// snapKey finds key k in a mapsnap term; ok=false: not set on this path.
func snapGet(ms *Term, key string) (*Term, bool) {
	if ms == nil || !ms.isApp("mapsnap") {
		return nil, false
	}
	for i := 1; i+1 < len(ms.Args); i += 2 {
		if ms.Args[i].isStr() && ms.Args[i].Name == key {
			return ms.Args[i+1], true
		}
	}
	return nil, false
}

// ---- operators -------------------------------------------------------

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) binop(x *ssa.BinOp, a, b *Term) *Term {
	typ := x.X.Type()
	num := isIntType(typ) || isFloatType(typ)
	switch x.Op {
	case token.ADD:
		if isStringType(typ) {
			return e.cat(a, b)
		}
		return e.add(a, b)
	case token.SUB:
		return e.sub(a, b)
	case token.MUL:
		return e.mul(a, b)
	case token.QUO:
		if isIntType(typ) {
			return e.idiv(a, b)
		}
		return e.app("fquo", strip(a), strip(b))
	case token.REM:
		return e.rem(a, b)
	case token.SHL:
		if b.isInt() && b.intVal() < 62 {
			return e.mul(a, e.mkInt(1<<uint(b.intVal())))
		}
	case token.SHR:
		if b.isInt() && b.intVal() < 62 {
			return e.idiv(a, e.mkInt(1<<uint(b.intVal())))
		}
	case token.AND:
		if a.isInt() && b.isInt() {
			return e.mkInt(a.intVal() & b.intVal())
		}
		if a.isInt() {
			a, b = b, a
		}
		return e.app("and", strip(a), strip(b))
	case token.OR:
		if a.isInt() && b.isInt() {
			return e.mkInt(a.intVal() | b.intVal())
		}
		if a.isInt() {
			a, b = b, a
		}
		return e.app("or", strip(a), strip(b))
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return e.not(e.eq(a, b))
	case token.LSS:
		return e.lt(a, b, num)
	case token.GTR:
		return e.lt(b, a, num)
	case token.LEQ:
		return e.not(e.lt(b, a, num))
	case token.GEQ:
		return e.not(e.lt(a, b, num))
	}
	return e.app("bin"+x.Op.String(), strip(a), strip(b))
}

// convert is the identity, except where a wider integer is cut to a narrower
// one: what comes out then is no longer known to be what went in. (Kinds of
// entries are bytes which the index keeps as wider numbers.)
func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	f, t := intBits(from), intBits(to)
	if f == 0 || t == 0 || t >= f || t == 8 || v.isInt() {
		return v
	}
	return e.tt.mk("app", "narrow"+strconv.Itoa(t), to, v)
}

// intBits is the width of an integer type (0: not an integer).
func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.UntypedInt, types.UntypedRune:
		return 0
	}
	return 64
}

// widened undoes narrowing conversions.
func widened(t *Term) *Term {
	for t.Op == "app" && strings.HasPrefix(t.Name, "narrow") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func (e *Engine) iface(v *Term, typ types.Type) *Term {
	if v.isNil() {
		// a typed nil in an interface is not a nil interface
		t := e.tt.mk("iface", typ.String(), typ, v)
		return t
	}
	t := e.tt.mk("iface", typ.String(), typ, v)
	return t
}

func (e *Engine) typeAssert(v *Term, x *ssa.TypeAssert) *Term {
	var val, ok *Term
	tn := x.AssertedType.String()
	if v.Op == "iface" && v.Typ != nil {
		if types.IsInterface(x.AssertedType) {
			if types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)) {
				val, ok = v, e.mkBool(true)
			} else {
				val, ok = e.mkNil(), e.mkBool(false)
			}
		} else if types.Identical(v.Typ, x.AssertedType) {
			val, ok = v.Args[0], e.mkBool(true)
		} else {
			val, ok = e.zero(x.AssertedType), e.mkBool(false)
		}
	} else if v.isNil() {
		val, ok = e.zero(x.AssertedType), e.mkBool(false)
	} else {
		val = e.tt.mk("app", "assert["+tn+"]", x.AssertedType, v)
		ok = e.app("istype["+tn+"]", v)
	}
	if x.CommaOk {
		return e.tt.mk("tuple", "", nil, val, ok)
	}
	return val
}

// ---- facts -----------------------------------------------------------

// rep replaces a term by a constant it is known to equal on this path.
func (e *Engine) rep(st *State, t *Term) *Term {
	t = strip(t)
	if t.constLike() {
		return t
	}
	for f, v := range st.facts {
		if v && f.isApp("eq") && f.Args[0] == t && f.Args[1].constLike() {
			return f.Args[1]
		}
		if f == t && f.Op != "app" {
			return e.mkBool(v)
		}
	}
	return t
}

func (e *Engine) decide(st *State, c *Term) *Term {
	if c.isBool() {
		return c
	}
	if c.isApp("not") {
		return e.not(e.decide(st, c.Args[0]))
	}
	if v, ok := st.facts[c]; ok {
		return e.mkBool(v)
	}
	switch {
	case c.isApp("eq"):
		a, b := c.Args[0], c.Args[1]
		ra, rb := e.rep(st, a), e.rep(st, b)
		if ra != a || rb != b {
			n := e.eq(ra, rb)
			if n != c {
				return e.decide(st, n)
			}
		}
		if b.isNil() {
			// a equals something that is not nil?
			for f, v := range st.facts {
				if v && f.isApp("eq") && f.Args[0] == a && f.Args[1] != b && nonNilTerm(f.Args[1]) {
					return e.mkBool(false)
				}
				if v && f.isApp("eq") && f.Args[1] == a && nonNilTerm(f.Args[0]) {
					return e.mkBool(false)
				}
				if v && f.Op == "app" && strings.HasPrefix(f.Name, "istype[") && f.Args[0] == a {
					return e.mkBool(false)
				}
				if v && f.Op == "app" && (strings.HasPrefix(f.Name, "os.Is") || f.Name == "strings.Contains") && len(f.Args) > 0 && f.Args[0] == a {
					return e.mkBool(false)
				}
			}
			if r := e.pairedErr(st, a); r != nil {
				return r
			}
		}
		if intLike(a) && intLike(b) && !(a.isInt() && b.isInt()) {
			// from order facts
			p := e.toPoly(a).add(e.toPoly(b), -1)
			v, ok := e.decideLt(st, p)
			if ok && v { // a-b<0
				return e.mkBool(false)
			}
			q := (&poly{terms: map[string]*mono{}}).add(p, -1)
			w, ok2 := e.decideLt(st, q)
			if ok2 && w {
				return e.mkBool(false)
			}
			if ok && ok2 { // neither is smaller
				return e.mkBool(true)
			}
		}
	case c.isApp("lt0"):
		p := e.substPoly(st, e.toPoly(c.Args[0]))
		n := e.lt0(p)
		if n.isBool() {
			return n
		}
		if v, ok := e.decideLt(st, p); ok {
			return e.mkBool(v)
		}
	}
	return c
}

func (e *Engine) substPoly(st *State, p *poly) *poly {
	out := &poly{c: p.c, terms: map[string]*mono{}}
	for _, k := range p.keys() {
		m := p.terms[k]
		cur := &poly{c: m.coef, terms: map[string]*mono{}}
		for _, a := range m.atoms {
			cur = cur.mul(e.toPoly(e.rep(st, a)))
		}
		out = out.add(cur, 1)
	}
	return out
}

func intLike(t *Term) bool {
	return t.isInt() || t.Poly != nil || nonNegAtom(t) || t.Typ != nil && isIntType(t.Typ)
}

// decideLt: is p<0 implied by the recorded order facts?
func (e *Engine) decideLt(st *State, p *poly) (bool, bool) { return e.decideLtN(st, p, 1) }

func (e *Engine) decideLtN(st *State, p *poly, depth int) (bool, bool) {
	if p.isConst() {
		return p.c < 0, true
	}
	for f, v := range st.facts {
		if !f.isApp("lt0") {
			continue
		}
		q := e.toPoly(f.Args[0])
		// v: q<0 ; !v: q>=0
		d := p.add(q, -1) // p = d + q
		pos, neg := polySigns(d)
		if v && neg && d.c <= 0 {
			return true, true
		}
		if !v && pos && d.c >= 0 {
			return false, true
		}
		if depth > 0 && !v && len(d.terms) < len(p.terms) {
			if r, ok := e.decideLtN(st, d, depth-1); ok && !r {
				return false, true
			}
		}
		d = p.add(q, 1) // p = d - q
		pos, neg = polySigns(d)
		// q<0 => q<=-1 => p >= d+1
		if v && pos && d.c+1 >= 0 {
			return false, true
		}
		// q>=0 => p <= d
		if !v && neg && d.c < 0 {
			return true, true
		}
	}
	return false, false
}

// pairedErr: results of a call returning (pointer-like, error): the pointer is
// non-nil when the error is nil.
func (e *Engine) pairedErr(st *State, a *Term) *Term {
	if a.Op != "res" || a.Ev == nil || a.Idx < 0 || len(a.Ev.Results) < 2 {
		return nil
	}
	last := a.Ev.Results[len(a.Ev.Results)-1]
	if a == last || last.Typ == nil || !types.Identical(last.Typ, errorType) {
		return nil
	}
	if a.Typ != nil {
		switch a.Typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
		default:
			return nil
		}
	}
	c := e.app("eq", last, e.mkNil())
	r := e.decide(st, c)
	if r.isTrue() {
		return e.mkBool(false)
	}
	if r.isFalse() && errMeansNil[a.Ev.Callee] {
		return e.mkBool(true)
	}
	return nil
}

var errMeansNil = map[string]bool{"(*archive/tar.Reader).Next": true}

func (e *Engine) assume(st *State, c *Term, v bool) bool {
	if c.isBool() {
		return c.isTrue() == v
	}
	if c.isApp("not") {
		return e.assume(st, c.Args[0], !v)
	}
	if d := e.decide(st, c); d.isBool() {
		return d.isTrue() == v
	}
	st.thaw()
	st.facts[c] = v
	return true
}

// known: 1 true, -1 false, 0 unknown
func (e *Engine) known(st *State, c *Term) int {
	d := e.decide(st, c)
	if d.isTrue() {
		return 1
	}
	if d.isFalse() {
		return -1
	}
	return 0
}

// knownIn evaluates a condition under a recorded fact set.
func (e *Engine) knownIn(facts map[*Term]bool, c *Term) int {
	return e.known(&State{facts: facts}, c)
}

package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lock discipline of the shared objects ---------------------------------------------

type access struct {
	run   *Run
	write bool
	locks map[string]bool
	pos   token.Pos
	in    *ssa.Function
}

type lockset struct {
	c       *Ctx
	alias   map[string]string // lock of a file -> lock of the filesystem
	mutable map[string]bool   // "File.readOpOffset"
	by      map[string][]*access
	names   []string
	pending []pendingCall
}

type pendingCall struct {
	ev *Event
	st *State
}

// mutableFields are the fields which are assigned to other than by the function
// that makes the value.
func (c *Ctx) mutableFields() map[string]bool {
	out := map[string]bool{}
	for _, fn := range c.P.SrcFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				if s := derefStruct(fa.X.Type()); s != nil {
					out[typeName(fa.X.Type())+"."+s.Field(fa.Field).Name()] = true
				}
			}
		}
	}
	return out
}

func (l *lockset) lock(a *Term) string {
	n := ""
	if o, f, base := fieldOf(a); base != nil {
		n = o + "." + f
	} else if strip(a).Op == "fldaddr" {
		n = lockName(strip(a))
	} else {
		n = a.String()
	}
	if m := l.alias[n]; m != "" {
		return m
	}
	return n
}

func (l *lockset) held(evs []*Event) map[string]bool {
	out := map[string]bool{}
	for a := range heldLocks(evs) {
		if r := rootOf(a); r != nil && r.Op != "alloc" { // a lock nobody else can see protects nothing
			out[l.lock(a)] = true
		}
	}
	return out
}

func (l *lockset) add(key string, a *access) {
	if l.by[key] == nil {
		l.names = append(l.names, key)
	}
	l.by[key] = append(l.by[key], a)
}

// watch records the accesses to mutable fields of the receiver while it is
// analysed.
func (l *lockset) watch(r *Run) {
	recv := strip(r.Args[0])
	l.pending = nil
	e := r.E
	fsOnly := typePath(recv.Typ) != "pkg/persisters.MetadataPersister"
	e.Observe = func(ev *Event, st *State) {
		r.plainRows(ev, st)
		var evs []*Event
		if st.trace != nil {
			evs = st.trace.Events()
		}
		if fsOnly && guarded(ev) {
			fn := r.Fn
			if ev.In != nil {
				fn = ev.In
			}
			l.add("the filesystem", &access{run: r, write: true, locks: l.held(evs), pos: ev.Pos, in: fn})
		}
		for _, a := range ev.Args {
			if cl, ok := r.funcOf(a); ok && cl.Fn != nil {
				l.pending = append(l.pending, pendingCall{ev, st.clone()})
				break
			}
		}
	}
	r.E.Access = func(st *State, fr *FrameInfo, addr *Term, write bool, pos token.Pos) {
		a := strip(addr)
		if a == nil || a.Op != "fldaddr" || len(a.Args) == 0 {
			return
		}
		if root := rootOf(a); root != recv {
			return
		}
		n := typeName(a.Args[0].Typ) + "." + a.Name
		if !l.mutable[n] {
			return
		}
		var evs []*Event
		if st.trace != nil {
			evs = st.trace.Events()
		}
		l.add(n, &access{run: r, write: write, locks: l.held(evs), pos: pos, in: fr.Fn})
	}
}

// judge: all accesses of a field (or of the index and the drive) have a lock in
// common.
func (l *lockset) judge() {
	sort.Strings(l.names)
	for _, n := range l.names {
		as := l.by[n]
		writes := false
		score := map[string]int{}
		for _, a := range as {
			writes = writes || a.write
			for k := range a.locks {
				score[k]++
			}
		}
		l.c.Ob(n, "accesses share a lock")
		if !writes {
			continue
		}
		best, bn := -1, ""
		for k, v := range score {
			if v > best || v == best && k < bn {
				best, bn = v, k
			}
		}
		if best == len(as) {
			continue
		}
		done := map[string]bool{}
		for _, a := range as {
			if a.locks[bn] {
				continue
			}
			name := fnName(a.in)
			if done[name] {
				continue
			}
			done[name] = true
			msg := "is used without any lock"
			if bn != "" {
				msg = "is used without the lock " + bn + " which protects it everywhere else"
			}
			l.c.Fail(a.run.Name, n+" in "+name, l.c.P.At(a.pos), n+" "+msg, nil)
		}
	}
}

// fileLockAlias: the lock of a file is the filesystem's.
func (c *Ctx) fileLockAlias() map[string]string {
	out := map[string]string{}
	lk := c.role("NewFile", 8)
	if lk == nil {
		return out
	}
	for _, ci := range c.callSites(func(n string) bool { return n == fsPkg+".NewFile" }) {
		a := ci.Common().Args
		if len(a) < 9 {
			continue
		}
		fa, ok := a[8].(*ssa.FieldAddr)
		c.Ob(fnName(ci.Parent()), "lock of a new file")
		if !ok || derefStruct(fa.X.Type()) == nil {
			c.Fail(fnName(ci.Parent()), "lock of a new file", c.P.At(ci.Pos()), "a file does not get the lock of its filesystem, so its calls are not serialised with the others", nil)
			continue
		}
		n := typeName(fa.X.Type()) + "." + derefStruct(fa.X.Type()).Field(fa.Field).Name()
		k := "File." + lk.Name()
		for _, o := range []string{"File", fsPkg + ".File"} {
			k = o + "." + lk.Name()
			if out[k] != "" && out[k] != n {
				c.Fail(fnName(ci.Parent()), "lock of a new file", c.P.At(ci.Pos()), "files of one filesystem use different locks", nil)
			}
			out[k] = n
		}
	}
	return out
}

// guarded are the uses of the index, the drive and the buffers that must not be
// interleaved with another call.
func guarded(ev *Event) bool {
	if len(ev.Args) > 0 && ev.Kind == "call" && strings.HasPrefix(ev.Callee, "(io.") {
		// the methods a write cache has from the interfaces it is made of
		if a := ev.arg(0); a.Typ != nil && typePath(a.Typ) == "pkg/cache.WriteCache" {
			return true
		}
	}
	return isLookup(ev) || strings.HasPrefix(ev.Callee, "pkg/inventory.") || isEffect(ev) || strings.HasPrefix(ev.Callee, "(pkg/cache.WriteCache).") || strings.HasPrefix(ev.Callee, "dyn:BackendConfig.")
}

// indexLocks: the streaming reads of open files use the index next to other
// calls. What the index keeps in memory is only used under its lock.
func indexLocks(c *Ctx) {
	const pkg, recv = "pkg/persisters", "MetadataPersister"
	l := &lockset{c: c, mutable: c.mutableFields(), by: map[string][]*access{}}
	for _, m := range c.methods(pkg, recv) {
		if m == "Open" { // before anything else
			continue
		}
		r := c.Run(pkg, recv, m, RunOpt{Visits: 2, Key: "index locks", Setup: func(r *Run, _ *State) { l.watch(r) }, Relevant: locksOnly(l.watch), MaxItems: 400000})
		if r != nil {
			l.callbacks(r)
			lockBalance(c, r)
		}
	}
	l.judge()
}

func fsLocks(c *Ctx) {
	l := &lockset{c: c, alias: c.fileLockAlias(), mutable: c.mutableFields(), by: map[string][]*access{}}
	done := func(r *Run) {
		if r != nil {
			l.callbacks(r)
			lockBalance(c, r)
			l.sections(r)
			l.escapes(r)
		}
	}
	for _, m := range c.methods(fsPkg, "STFS") {
		done(c.freeWith(m, 0, l.watch))
	}
	for _, m := range c.methods(fsPkg, "File") {
		done(c.fileFreeWith(m, 1, l.watch))
		done(c.fileFreeWith(m, 0, l.watch))
	}
	l.judge()
}

// sections: a call that lets go of the lock in between is not one step to the
// others.
func (l *lockset) sections(r *Run) {
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		n := map[string]int{}
		for _, ev := range x.events() {
			if !isMutexOp(ev.Callee, "Lock") {
				continue
			}
			k := l.lock(ev.arg(0))
			n[k]++
			l.c.Check(n[k] < 2, r, x, ev, "one critical section", "the call releases its lock and takes it again, so other calls can come in between and the call is not atomic")
		}
	}
}

// escapes: what a call returns is not something later calls change.
func (l *lockset) escapes(r *Run) {
	recv := strip(r.Args[0])
	for _, x := range r.returns() {
		for _, t := range x.Results {
			v := strip(t)
			if v.Op == "iface" {
				v = strip(v.Args[0])
			}
			s := derefStruct(v.Typ)
			if v.Op != "deref" && v.Op != "fld" || rootOf(v) != recv || s == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				n := typeName(v.Typ) + "." + s.Field(i).Name()
				l.c.Check(!l.mutable[n], r, x, nil, "result "+n, "the call returns an object whose "+n+" later calls change while the caller uses it")
			}
		}
	}
}

// callbacks analyses the functions a call hands out: those of goroutines hold no
// lock, the others are called before the call they are handed to returns.
func (l *lockset) callbacks(r *Run) {
	seen := map[*ssa.Function]int{}
	for len(l.pending) > 0 {
		p := l.pending[0]
		l.pending = l.pending[1:]
		for _, a := range p.ev.Args {
			cl, ok := r.funcOf(a)
			if !ok || cl.Fn == nil || len(cl.Fn.Blocks) == 0 || seen[cl.Fn] > 3 {
				continue
			}
			seen[cl.Fn]++
			st := p.st.clone()
			var args []*Term
			if p.ev.Kind == "go" {
				st.trace = nil
				args = p.ev.Args[1:]
			}
			for _, prm := range cl.Fn.Params[len(args):] {
				args = append(args, r.E.sym("callback:"+prm.Name(), prm.Type()))
			}
			r.E.runFunc(st, cl.Fn, args, cl.Args, nil, p.ev.Pos)
		}
	}
}

// fsCaptures: a goroutine assigns to a variable the function that started it
// goes on using.
func fsCaptures(c *Ctx) {
	for _, fn := range c.P.SrcFuncs() {
		if !strings.HasPrefix(fnPkg(fn), "pkg/") {
			continue
		}
		syncs := false
		var gos []*ssa.Go
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Go:
					gos = append(gos, v)
				case *ssa.Select:
					syncs = true
				case *ssa.UnOp:
					syncs = syncs || v.Op == token.ARROW
				case ssa.CallInstruction:
					syncs = syncs || strings.HasPrefix(calleeName(v.Common()), "(*sync.WaitGroup).Wait")
				}
			}
		}
		for _, g := range gos {
			c.Ob(fnName(fn), "variables shared with a goroutine")
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue // what it is given are values
			}
			body := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				cell, ok := b.(*ssa.Alloc)
				if !ok || syncs {
					continue
				}
				if assigned(body, body.FreeVars[i]) && usedAfter(cell, g) {
					c.Fail(fnName(fn), "variable "+cell.Comment, c.P.At(g.Pos()), "the goroutine assigns to a variable which the call goes on using without waiting for it", nil)
				}
			}
		}
	}
}

func assigned(fn *ssa.Function, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
			return true
		}
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if b == v && assigned(mc.Fn.(*ssa.Function), mc.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

// usedAfter: an instruction that uses the variable can be executed after the
// goroutine has been started.
func usedAfter(cell *ssa.Alloc, g *ssa.Go) bool {
	after := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !after[s] && s != cell.Block() {
				after[s] = true
				walk(s)
			}
		}
	}
	walk(g.Block())
	for _, ref := range *cell.Referrers() {
		if ref == ssa.Instruction(g) {
			continue
		}
		if _, ok := ref.(*ssa.MakeClosure); ok && ref.Block() == g.Block() {
			continue
		}
		if after[ref.Block()] {
			return true
		}
		if ref.Block() == g.Block() {
			seen := false
			for _, in := range g.Block().Instrs {
				if in == ssa.Instruction(g) {
					seen = true
				}
				if seen && in == ref {
					return true
				}
			}
		}
	}
	return false
}

var _ = types.Universe

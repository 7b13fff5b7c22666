package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- every method of the filesystem and of its files, over any index ---------------

// methods are the exported methods a type of the repository declares.
func (c *Ctx) methods(pkg, recv string) []string {
	var out []string
	sp := c.P.SSA[pkg]
	if sp == nil {
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup(recv).(*types.TypeName)
	if tn == nil {
		return nil
	}
	named, _ := tn.Type().(*types.Named)
	for i := 0; named != nil && i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Exported() {
			out = append(out, m.Name())
		}
	}
	sort.Strings(out)
	return out
}

// free runs a method of STFS over whatever the index answers.
func (c *Ctx) free(method string, ro int) *Run { return c.freeWith(method, ro, nil) }

func (c *Ctx) freeWith(method string, ro int, watch func(*Run)) *Run {
	roV := c.role("NewSTFS", 5)
	if roV == nil {
		return nil
	}
	return c.Run(fsPkg, "STFS", method, RunOpt{Visits: 3, Inline: lockInline(watch), MaxItems: 400000, Key: freeKey(ro, watch), Relevant: locksOnly(watch),
		Setup: func(r *Run, st *State) {
			if watch != nil {
				watch(r)
			}
			r.E.store(st, r.E.fieldAddr(r.Args[0], roV), r.E.mkBool(ro == 1))
			if ro == 0 {
				// which entry is meant makes no difference here
				r.E.relDiffer = true
				if watch == nil {
					r.E.Observe = r.plainRows
				}
				for i, n := range []string{"/P/N", "/Q/M"} {
					if i+1 < len(r.Args) && types.Identical(r.Args[i+1].Typ, types.Typ[types.String]) {
						r.Args[i+1] = r.E.spell(n)
					}
				}
			}
		},
	})
}

// mutators are the methods of a filesystem which change it: those the afero
// interfaces define so, and every other one from which a change can be reached
// (opening and initialising aside: they do so under conditions).
func (c *Ctx) mutators() map[string]bool {
	out := map[string]bool{}
	for _, m := range []string{"Create", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "Chmod", "Chown", "Chtimes", "SymlinkIfPossible"} {
		out[m] = true
		c.fn(fsPkg, "STFS", m)
	}
	for _, m := range c.methods(fsPkg, "STFS") {
		if m == "Open" || m == "OpenFile" || m == "Initialize" {
			continue
		}
		if fn := c.P.Func(fsPkg, "STFS", m); fn != nil && reaches(fn, map[*ssa.Function]bool{}) {
			out[m] = true
		}
	}
	return out
}

// reaches: an effect can be reached through static calls.
func reaches(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if isEffect(&Event{Kind: "call", Callee: calleeName(ci.Common())}) {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && worldInline(g) && reaches(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// fileFree runs a method of an open file; write tells whether it was opened for
// writing.
func (c *Ctx) fileFree(method string, write int) *Run { return c.fileFreeWith(method, write, nil) }

func (c *Ctx) fileFreeWith(method string, write int, watch func(*Run)) *Run {
	flV, lkV := c.role("NewFile", 5), c.role("NewFile", 8)
	if flV == nil || lkV == nil {
		return nil
	}
	return c.Run(fsPkg, "File", method, RunOpt{Visits: 3, Inline: lockInline(watch), MaxItems: 400000, Key: freeKey(write, watch), Relevant: locksOnly(watch),
		Setup: func(r *Run, st *State) {
			e := r.E
			if watch != nil {
				watch(r)
			}
			fl := strip(e.load(st, e.fieldAddr(r.Args[0], flV), flV.Type()))
			e.assume(st, e.eq(fl, e.mkNil()), false)
			e.assume(st, e.eq(strip(e.load(st, e.fieldAddr(r.Args[0], lkV), lkV.Type())), e.mkNil()), false)
			if iv := c.role("NewFile", 10); iv != nil {
				e.assume(st, e.eq(strip(e.load(st, e.fieldAddr(r.Args[0], iv), iv.Type())), e.mkNil()), false)
			}
			if v := nameVar(fl.Typ, "Write"); v != nil {
				e.store(st, e.fieldAddr(fl, v), e.mkBool(write == 1))
			}
			wb := typedField(r.Args[0].Typ, "pkg/cache.WriteCache")
			if wb != nil && write == 0 {
				e.store(st, e.fieldAddr(r.Args[0], wb), e.mkNil())
			}
		},
	})
}

// allEvents are the events of a path, those of the goroutines it starts, and
// those of the callbacks it hands out.
func (r *Run) allEvents(x *Exit) []*Event {
	return r.nested(x.events(), map[*ssa.Function]bool{})
}

func (r *Run) nested(evs []*Event, seen map[*ssa.Function]bool) []*Event {
	out := append([]*Event{}, evs...)
	for _, ev := range evs {
		if ev.St == nil {
			continue
		}
		for _, a := range append(append([]*Term{}, ev.Args...), ev.Results...) {
			cl, ok := r.funcOf(a)
			if !ok || cl.Fn == nil || seen[cl.Fn] || len(cl.Fn.Blocks) == 0 {
				continue
			}
			seen[cl.Fn] = true
			var args []*Term
			for _, p := range cl.Fn.Params {
				args = append(args, r.E.sym("callback:"+p.Name(), p.Type()))
			}
			n := len(ev.St.trace.Events())
			for _, y := range r.E.runFunc(ev.St.clone(), cl.Fn, args, cl.Args, nil, ev.Pos) {
				es := y.events()
				if n <= len(es) {
					out = append(out, r.nested(es[n:], seen)...)
				}
			}
			delete(seen, cl.Fn)
		}
	}
	return out
}

// changes are the effects of a path, wherever it causes them.
func (r *Run) changes(x *Exit) []*Event {
	var out []*Event
	for _, ev := range r.allEvents(x) {
		if isEffect(ev) {
			out = append(out, ev)
		}
	}
	return out
}

func fsReadonly(c *Ctx) {
	roV := c.role("NewSTFS", 5)
	mutators := c.mutators()
	for _, m := range c.methods(fsPkg, "STFS") {
		r := c.free(m, 1)
		if r == nil {
			continue
		}
		init := m == "Initialize"
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			for _, ev := range r.changes(x) {
				if init && ev.is("pkg/recovery.Index") {
					ok := false
					for _, l := range x.events() {
						if l == ev {
							break
						}
						if l.is(mp+"GetRootPath") && r.isNilOn(x, l.err()) == -1 {
							ok = true
						}
					}
					c.Check(ok, r, x, ev, m+": index", "a read-only filesystem rebuilds an index that is already there")
					continue
				}
				c.Check(false, r, x, ev, m+": changes", "a read-only filesystem changes the tape or the index")
			}
			for _, ev := range r.allEvents(x) {
				c.Check(!r.absent(c, "NewSTFS", 1, 4, ev), r, x, ev, m+": needs nothing for writing", "a read-only filesystem uses the write operations or a write buffer, which it need not have")
			}
			if x.Kind != "return" {
				continue
			}
			c.Ob(r.Name, "changes nothing")
			if roV != nil {
				v := strip(r.E.load(x.St, r.E.fieldAddr(r.Args[0], roV), roV.Type()))
				c.Check(v.isTrue(), r, x, nil, m+": stays read-only", "the filesystem becomes writable")
			}
			if mutators[m] {
				ret := r.errResult(x)
				c.Check(ret != nil && r.isNilOn(x, ret) == -1, r, x, nil, m+": fails", "a mutating call on a read-only filesystem can succeed")
				c.Check(ret != nil && (r.isSentinel(x, ret, ePerm) || r.isSentinel(x, ret, eInvalid) && len(x.events()) == 0), r, x, nil, m+": error", "a mutating call on a read-only filesystem does not fail with a permission error")
			}
		}
	}
	// the contents of a file are mutated by these
	mut := map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true}
	flV := c.role("NewFile", 5)
	for _, m := range c.methods(fsPkg, "File") {
		r := c.fileFree(m, 0)
		if r == nil {
			continue
		}
		wb := typedField(r.Args[0].Typ, "pkg/cache.WriteCache")
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			for _, ev := range r.changes(x) {
				c.Check(false, r, x, ev, m+": changes", "a file that was not opened for writing changes the tape or the index")
			}
			for _, ev := range r.allEvents(x) {
				c.Check(!r.absent(c, "NewFile", 1, 7, ev), r, x, ev, m+": needs nothing for writing", "a file that was not opened for writing uses the write operations or a write buffer, which need not exist")
			}
			if x.Kind != "return" {
				continue
			}
			c.Ob(r.Name, "changes nothing")
			if wb != nil {
				v := strip(r.E.load(x.St, r.E.fieldAddr(r.Args[0], wb), wb.Type()))
				c.Check(r.isNilOn(x, v) == 1, r, x, nil, m+": no write buffer", "a file that was not opened for writing gets a write buffer")
			}
			if flV != nil {
				fl := strip(r.E.load(x.St, r.E.fieldAddr(r.Args[0], flV), flV.Type()))
				if v := nameVar(fl.Typ, "Write"); v != nil {
					t := strip(r.E.load(x.St, r.E.fieldAddr(fl, v), v.Type()))
					c.Check(t.isBool() && !t.isTrue(), r, x, nil, m+": stays unwritable", "a file that was not opened for writing becomes writable")
				}
			}
			if mut[m] {
				ret := r.errResult(x)
				c.Check(ret != nil && r.isNilOn(x, ret) == -1, r, x, nil, m+": fails", "writing to a file that was not opened for writing can succeed")
				c.Check(ret != nil && (r.isSentinel(x, ret, ePerm) || r.isSentinel(x, ret, []string{"pkg/config.ErrIsDirectory"})), r, x, nil, m+": error", "writing to a file that was not opened for writing does not fail with a permission error")
			}
		}
	}
	for m := range mut {
		c.Check(c.fn(fsPkg, "File", m) != nil, nil, nil, nil, m, "the file has no such method")
	}
}

// absent: the call needs the write operations or a buffer, which a filesystem
// that is never written need not have.
func (r *Run) absent(c *Ctx, ctor string, ops, buf int, ev *Event) bool {
	is := func(t *Term, v *types.Var) bool {
		if t == nil || v == nil {
			return false
		}
		_, f, b := fieldOf(t)
		return f == v.Name() && rootOf(b) == strip(r.Args[0])
	}
	if strings.HasPrefix(ev.Callee, opsRcv) {
		return is(ev.arg(0), c.role(ctor, ops))
	}
	return strings.HasPrefix(ev.Callee, "dyn") && is(ev.arg(0), c.role(ctor, buf))
}

func freeKey(n int, watch func(*Run)) string {
	k := "free" + string(rune('0'+n))
	if watch != nil {
		k += "watched"
	}
	return k
}

// plainRows: what the index answers has the name it was asked for, or is a link
// to it; whether there is such an entry and of what kind it is stays open.
func (r *Run) plainRows(ev *Event, st *State) {
	e := r.E
	if !isLookup(ev) || len(ev.Results) == 0 {
		return
	}
	row := ev.Results[0]
	set := func(row *Term, n, link *Term) {
		for f, v := range map[string]*Term{"Name": n, "Linkname": link, "Paxrecords": e.app("json", e.sym("pax:"+ev.key, nil))} {
			if nv := nameVar(row.Typ, f); nv != nil {
				e.store(st, e.fieldAddr(row, nv), v)
			}
		}
	}
	switch ev.Callee {
	case mp + "GetHeader":
		set(row, ev.arg(2), e.mkStr(""))
	case mp + "GetHeaderByLinkname":
		set(row, e.spell("/R/S"), ev.arg(2))
	}
}

// locksOnly keeps just what matters for the order of locks on the trace.
func locksOnly(watch func(*Run)) func(*Event) bool {
	if watch == nil {
		return nil
	}
	return func(ev *Event) bool {
		return ev.Kind == "go" || ev.Kind == "panic" || isMutexOp(ev.Callee, "Lock") || isMutexOp(ev.Callee, "Unlock") || isMutexOp(ev.Callee, "RLock") || isMutexOp(ev.Callee, "RUnlock")
	}
}

// lockInline: looking an entry up is one step as far as locks are concerned.
func lockInline(watch func(*Run)) func(*ssa.Function) bool {
	if watch == nil {
		return worldInline
	}
	return func(fn *ssa.Function) bool {
		return fnPkg(fn) != "pkg/inventory" && fnPkg(fn) != "internal/converters" && worldInline(fn)
	}
}

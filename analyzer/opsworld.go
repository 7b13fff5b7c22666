package main

import (
	"archive/tar"
	"fmt"
	"go/types"
	"path"
	"strings"
)

// ---- operations on a described index ---------------------------------------------
//
// Delete, Move and Restore are interpreted on an index of which every name is
// spelled out: P is a directory with the entries P/N, P/P (named like its parent)
// and P/N/M, stored below some spelling of the root and with or without a
// trailing slash. What they write or restore is compared entry by entry.

type opsWorld struct {
	prefix string // how the root is spelled in stored names
	slash  bool   // directories are stored with a trailing slash
	target string // an existing entry besides the tree: its kind
	e      *Engine
}

var treeBelow = []string{"P", "P/N", "P/P", "P/N/M"}

func (w *opsWorld) stored(name string) string {
	if w.slash && (name == "P" || name == "P/N") {
		name += "/"
	}
	return w.prefix + name
}

func (w *opsWorld) isDir(name string) bool { return name == "P" || name == "P/N" }

func (w *opsWorld) override(ev *Event, slot int, typ types.Type) *Term {
	e := w.e
	if !isLookup(ev) || slot >= 100 {
		return nil
	}
	isErr := types.Identical(typ, errorType)
	if ev.is(mp + "GetRootPath") {
		if isErr {
			return e.mkNil()
		}
		return e.mkStr(w.prefix)
	}
	name, slash, ok := canon(ev.arg(2))
	if !ok {
		return nil
	}
	known := false
	for _, n := range treeBelow {
		known = known || n == name && slash == strings.HasSuffix(w.stored(n), "/")
	}
	switch ev.Callee {
	case mp + "GetHeader":
		switch {
		case isErr && known:
			return e.mkNil()
		case isErr:
			return e.gerr("database/sql.ErrNoRows")
		case known:
			return e.sym("row:"+ev.key, typ)
		}
		return e.mkNil()
	case mp + "GetHeaderByLinkname":
		if isErr {
			return e.gerr("database/sql.ErrNoRows")
		}
		return e.mkNil()
	case mp + "GetHeaderChildren":
		if isErr {
			return e.mkNil()
		}
		els := []*Term{e.mkNil()}
		for i := range w.below(name) {
			els = append(els, e.sym(fmt.Sprintf("row%d:%s", i, ev.key), sliceElem(typ)))
		}
		return e.tt.mk("app", "append", typ, els...)
	}
	return nil
}

func (w *opsWorld) below(name string) []string {
	var out []string
	for _, n := range treeBelow {
		if strings.HasPrefix(n, name+"/") {
			out = append(out, n)
		}
	}
	return out
}

func (w *opsWorld) fill(st *State, row *Term, name string) {
	e := w.e
	set := func(f string, v *Term) {
		if nv := nameVar(row.Typ, f); nv != nil {
			e.store(st, e.fieldAddr(row, nv), v)
		}
	}
	tf := int64(tar.TypeReg)
	if w.isDir(name) {
		tf = int64(tar.TypeDir)
	}
	set("Name", e.spell(w.stored(name)))
	set("Linkname", e.mkStr(""))
	set("Typeflag", e.mkInt(tf))
	set("Paxrecords", e.app("json", e.sym("pax:"+row.Name, nil)))
	e.assume(st, e.eq(row, e.mkNil()), false)
}

func (w *opsWorld) observe(ev *Event, st *State) {
	if !isLookup(ev) || len(ev.Results) == 0 {
		return
	}
	name, _, ok := canon(ev.arg(2))
	if !ok {
		return
	}
	switch ev.Callee {
	case mp + "GetHeader":
		if r := ev.Results[0]; r.Op == "sym" && strings.HasPrefix(r.Name, "row:") {
			w.fill(st, r, name)
		}
	case mp + "GetHeaderChildren":
		if els, ok := w.e.elemsOf(ev.Results[0]); ok {
			for i, r := range els {
				if b := w.below(name); i < len(b) {
					w.fill(st, r, b[i])
				}
			}
		}
	}
}

func (c *Ctx) opsWorldRun(op string, w *opsWorld, args map[int]string) *Run {
	return c.Run("pkg/operations", "Operations", op, RunOpt{Visits: 6, MaxItems: 400000, Setup: func(r *Run, st *State) {
		w.e = r.E
		r.E.relDiffer = true
		r.E.Override = w.override
		for i, a := range args {
			r.Args[i+1] = r.E.spell(a)
		}
	}, Observe: func(e *Engine, ev *Event, st *State) { w.observe(ev, st) }})
}

// opsTree: Delete and Move on the described index.
func opsTree(c *Ctx) {
	kRep := c.constStr("internal/records", "STFSRecordReplacesName")
	for _, prefix := range []string{"/", "", "./"} {
		for _, slash := range []bool{false, true} {
			for _, spelled := range []string{"/", "", "./"} {
				for _, from := range []string{"P", "P/N", "P/P"} {
					for _, op := range []string{"Delete", "Move"} {
						if spelled != prefix && (slash || from != "P") {
							continue
						}
						w := &opsWorld{prefix: prefix, slash: slash}
						sp := spelled + from
						if slash && w.isDir(from) {
							sp += "/"
						}
						args := map[int]string{0: sp}
						to := "Q"
						if op == "Move" {
							args[1] = spelled + to
						}
						r := c.opsWorldRun(op, w, args)
						if r == nil {
							return
						}
						label := fmt.Sprintf("%s of %s, stored as %s", op, sp, w.stored(from))
						want := append([]string{from}, w.below(from)...)
						if !w.isDir(from) {
							want = want[:1]
						}
						some := false
						for _, x := range r.Exits {
							if x.Kind == "cut" || !r.mayOk(x) {
								continue
							}
							some = true
							c.opsTreeExit(r, x, w, op, label, from, to, kRep, want)
						}
						c.Check(some, r, nil, nil, "possible", "an entry that is there cannot be processed ("+label+")")
					}
				}
			}
		}
	}
}

func (c *Ctx) opsTreeExit(r *Run, x *Exit, w *opsWorld, op, label, from, to, kRep string, want []string) {
	got := map[string]int{}
	for _, h := range r.writes(x) {
		if h.logical == nil {
			continue
		}
		name := strip(r.fieldT(h.logical, "Name"))
		old := name
		if op == "Move" {
			ks, vs, _ := mapPairs(strip(r.fieldT(h.logical, "PAXRecords")))
			old = nil
			for i, k := range ks {
				if k == kRep {
					old = strip(vs[i])
				}
			}
		}
		o, ok := unspell(old)
		if old == nil || !ok {
			c.Check(false, r, x, h.ev, "which entry", "a record does not name the entry it is about ("+label+")")
			continue
		}
		e, _, _ := canon(old)
		c.Check(o == w.stored(e), r, x, h.ev, "stored name", fmt.Sprintf("a record is about %q, which the index stores as %q (%s)", o, w.stored(e), label))
		got[e]++
		if op == "Move" {
			n, ok := unspell(name)
			new, _, _ := canon(name)
			c.Check(ok && new == to+strings.TrimPrefix(e, from), r, x, h.ev, "new name", fmt.Sprintf("%s becomes %q instead of %q (%s)", e, n, to+strings.TrimPrefix(e, from), label))
		}
	}
	for _, n := range want {
		c.Check(got[n] == 1, r, x, nil, "every entry once", fmt.Sprintf("%d records are written about %s (%s)", got[n], n, label))
		delete(got, n)
	}
	for n := range got {
		c.Check(false, r, x, nil, "no other entry", "a record is written about "+n+" ("+label+")")
	}
}

// restoreTree: Restore on the described index brings every entry to its place
// below the destination.
func restoreTree(c *Ctx) {
	for _, prefix := range []string{"/", ""} {
		for _, from := range []string{"P", "P/N", "P/P"} {
			for _, to := range []string{"", "/D", "D"} {
				w := &opsWorld{prefix: prefix}
				r := c.Run("pkg/operations", "Operations", "Restore", RunOpt{Visits: 6, MaxItems: 400000, Setup: func(r *Run, st *State) {
					w.e = r.E
					r.E.relDiffer = true
					r.E.Override = w.override
					r.Args[3], r.Args[4], r.Args[5] = r.E.spell(prefix+from), r.E.spell(to), r.E.mkBool(false)
				}, Observe: func(e *Engine, ev *Event, st *State) { w.observe(ev, st) }})
				if r == nil {
					return
				}
				label := fmt.Sprintf("%s to %q", prefix+from, to)
				want := append([]string{from}, w.below(from)...)
				if !w.isDir(from) {
					want = want[:1]
				}
				for _, x := range r.Exits {
					if x.Kind == "cut" || !r.mayOk(x) {
						continue
					}
					got, places := map[string]int{}, map[string]string{}
					for _, ev := range x.events() {
						if !ev.is(fetchName) {
							continue
						}
						_, _, row := fieldOf(ev.arg(6))
						if row == nil {
							continue
						}
						e, _, _ := canon(strip(r.E.load(x.St, r.E.fieldAddr(rootOf(row), nameVar(rootOf(row).Typ, "Name")), nil)))
						got[e]++
						d, ok := unspell(ev.arg(8))
						if !c.Check(ok, r, x, ev, "destination", "an entry's destination does not follow from its name and the given one ("+label+")") {
							continue
						}
						c.Check(places[path.Clean(d)] == "", r, x, ev, "destination of its own", fmt.Sprintf("%s and %s are restored to the same place %q (%s)", e, places[path.Clean(d)], d, label))
						places[path.Clean(d)] = e
						below := strings.TrimPrefix(e, from)
						switch {
						case to == "":
							c.Check(d == w.stored(e), r, x, ev, "destination", fmt.Sprintf("%s is restored to %q (%s)", e, d, label))
						case below == "":
							c.Check(strings.HasPrefix(d, to) && (d == to || d == to+"/"+path.Base(from)), r, x, ev, "destination", fmt.Sprintf("%s is restored to %q (%s)", e, d, label))
						default:
							c.Check(strings.HasPrefix(d, to+"/") && strings.HasSuffix(d, below), r, x, ev, "destination", fmt.Sprintf("%s is restored to %q (%s)", e, d, label))
						}
					}
					for _, n := range want {
						c.Check(got[n] == 1, r, x, nil, "every entry once", fmt.Sprintf("%s is fetched %d times (%s)", n, got[n], label))
						delete(got, n)
					}
					for n := range got {
						c.Check(false, r, x, nil, "no other entry", n+" is restored too ("+label+")")
					}
				}
			}
		}
	}
}

package main

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- call sequences -----------------------------------------------------

// seqExit is the end of the last of several calls made one after another on
// the same objects; from is where that call's events start.
type seqExit struct {
	x    *Exit
	from int
	prev *seqExit
}

func (s *seqExit) own() []*Event { return s.x.events()[s.from:] }

type seq struct {
	c *Ctx
	r *Run
}

// newSeq starts a sequence with a call of fn.
func (c *Ctx) newSeq(fn *ssa.Function, name string, inline func(*ssa.Function) bool, setup func(*Run, *State)) (*seq, []*seqExit) {
	r := c.RunFn(fn, RunOpt{Inline: inline, Setup: setup})
	r.Name = name
	s := &seq{c, r}
	var out []*seqExit
	for _, x := range r.Exits {
		out = append(out, &seqExit{x: x})
	}
	return s, out
}

// then calls fn after every normal return of the previous call.
func (s *seq) then(prev []*seqExit, fn *ssa.Function, args func(p *seqExit) []*Term) []*seqExit {
	var out []*seqExit
	for _, p := range prev {
		if p.x.Kind != "return" {
			continue
		}
		n := len(p.x.events())
		as := args(p) // may change the state
		for _, x := range s.r.E.Run(fn, p.x.St.clone(), as) {
			out = append(out, &seqExit{x: x, from: n, prev: p})
		}
	}
	s.c.account(s.r)
	s.c.fns[fnName(fn)] = true
	return out
}

func (c *Ctx) fn(pkg, recv, name string) *ssa.Function {
	fn := c.P.Func(pkg, recv, name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Fail(pkg+"."+recv+"."+name, "anchor", "?", "entry point not found", nil)
		return nil
	}
	return fn
}

// heldLocks replays the lock operations of a trace.
func heldLocks(evs []*Event) map[*Term]int {
	m := map[*Term]int{}
	for _, ev := range evs {
		switch {
		case isMutexOp(ev.Callee, "Lock") || isMutexOp(ev.Callee, "RLock"):
			m[ev.arg(0)]++
		case isMutexOp(ev.Callee, "Unlock") || isMutexOp(ev.Callee, "RUnlock"):
			m[ev.arg(0)]--
		}
	}
	for a, n := range m {
		if n == 0 {
			delete(m, a)
		}
	}
	return m
}

// ---- opening the drive ----------------------------------------------------

func openFlags(ev *Event) (int64, bool) {
	switch {
	case ev.is("os.Open"):
		return int64(os.O_RDONLY), true
	case ev.is("os.Create"):
		return int64(os.O_RDWR | os.O_CREATE | os.O_TRUNC), true
	case ev.is("os.OpenFile"):
		if t := ev.arg(1); t != nil && t.isInt() {
			return t.intVal(), true
		}
	}
	return 0, false
}

func isOpen(ev *Event) bool { return ev.is("os.Open", "os.OpenFile", "os.Create") }

// destroys: the call can remove or replace bytes which are already stored.
func destroys(ev *Event) bool {
	if ev.is("(*os.File).Truncate", "os.Truncate", "os.Create", "os.Remove", "os.RemoveAll", "os.Rename", "os.WriteFile", "(*os.File).WriteAt", "(pkg/config.MagneticTapeIO).SeekToRecordOnTape") {
		return true
	}
	if f, ok := openFlags(ev); ok && f&int64(os.O_TRUNC) != 0 {
		return true
	}
	return false
}

// closed: f is closed by one of the events.
func closedBy(evs []*Event, f *Term) bool {
	return find(evs, func(e *Event) bool { return e.is("(*os.File).Close", "(io.Closer).Close") && e.arg(0) == strip(f) }) != nil
}

func regularOf(t *Term) (stat *Event) {
	t.contains(func(s *Term) bool {
		if s.Op == "res" && s.Ev != nil && (s.Ev.is("os.Stat", "(*os.File).Stat")) {
			stat = s.Ev
		}
		return false
	})
	return
}

// kindReported: the second result says what os.Stat saw.
func kindReported(c *Ctx, r *Run, x *Exit) {
	res := x.Results[1]
	if ev := regularOf(res); ev != nil && ev.arg(0) == r.param(0) && strip(res).isApp("(io/fs.FileMode).IsRegular") {
		return
	}
	want := 0
	var stat *Event
	for _, ev := range x.events() {
		if ev.is("os.Stat") && ev.arg(0) == r.param(0) {
			stat = ev
		}
	}
	if !c.Check(stat != nil, r, x, nil, "drive inspected", "the kind of the drive is decided without looking at it") {
		return
	}
	for f, v := range x.St.facts {
		if f.isApp("(io/fs.FileMode).IsRegular") && f.contains(func(s *Term) bool { return s == stat.Results[0] }) {
			want = -1
			if v {
				want = 1
			}
		}
	}
	got := r.fact(x, res)
	if want == 0 && r.isNilOn(x, stat.err()) == -1 {
		want = 1 // only a drive that does not exist yet may be opened without knowing its kind
	}
	c.Check(got != 0 && got == want, r, x, stat, "drive kind", "a regular file is reported as a tape or a tape as a regular file")
}

func tapeOpenWrite(c *Ctx) {
	r := c.Run("pkg/tape", "", "OpenTapeWriteOnly", RunOpt{})
	if r == nil {
		return
	}
	over := r.param(3)
	seen := map[string]bool{}
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		c.Check(x.Kind == "return", r, x, nil, "panic", "opening the drive can panic")
		evs := x.events()
		for _, ev := range evs {
			if isOpen(ev) {
				_, ok := openFlags(ev)
				c.Check(ok, r, x, ev, "open flags known", "the flags the drive is opened with are not constant")
				c.Check(ev.arg(0) == r.param(0), r, x, ev, "drive opened", "something other than the configured drive is opened")
			}
			if destroys(ev) {
				c.Check(r.at(ev, over) == 1, r, x, ev, "destructive "+ev.Callee, "content of the drive is removed or overwritten although no overwrite was asked for")
				c.Check(!ev.is("os.Remove", "os.RemoveAll", "os.Rename"), r, x, ev, "drive removed", "the drive itself is removed or replaced")
			}
		}
		if !r.mayOk(x) || len(x.Results) != 3 {
			continue
		}
		f := strip(x.Results[0])
		i, op := firstFrom(evs, 0, func(e *Event) bool { return isOpen(e) && strip(e.Results[0]) == f })
		if !c.Check(op != nil, r, x, nil, "file returned", "the returned file is not the one that was opened") {
			continue
		}
		c.Check(r.isNilOn(x, op.err()) == 1, r, x, op, "opened", "success although the drive could not be opened")
		fl, _ := openFlags(op)
		kindReported(c, r, x)
		regular := r.fact(x, x.Results[1])
		atEnd := fl&int64(os.O_APPEND) != 0
		if j, _ := firstFrom(evs, i, func(e *Event) bool {
			return e.is("(*os.File).Seek") && e.arg(0) == f && e.arg(1).isInt() && e.arg(1).intVal() == 0 && e.arg(2).isInt() && e.arg(2).intVal() == 2
		}); j >= 0 {
			atEnd = true
		}
		c.Check(fl&3 != 0, r, x, op, "opened for writing", "the drive is not opened for writing")
		if regular != -1 {
			seen["regular "+over.Name] = true
			c.Check(atEnd, r, x, op, "positioned at the end", "a regular drive is not written at its end, so earlier records are overwritten")
			if fl&int64(os.O_CREATE) == 0 {
				c.Check(false, r, x, op, "drive created", "a drive that does not exist yet is not created")
			}
		}
		if regular != 1 && r.fact(x, over) != 1 {
			seen["tape"] = true
			_, eod := firstFrom(evs, i, func(e *Event) bool {
				return e.is("(pkg/config.MagneticTapeIO).GoToEndOfTape") && e.arg(1).hasDeep(f)
			})
			eod2 := eod != nil && r.isNilOn(x, eod.err()) == 1
			if !(regular == 0 && eod == nil && atEnd) {
				c.Check(eod2, r, x, op, "tape wound to its end", "a tape is written to without going to its end first, so earlier records are overwritten")
			}
		}
		if r.fact(x, over) == 1 {
			wiped := find(evs, func(e *Event) bool { return destroys(e) && r.isNilOn(x, e.err()) == 1 })
			c.Check(wiped != nil, r, x, op, "overwritten when asked", "an explicit overwrite keeps the old content")
			if wiped != nil && wiped.is("(*os.File).Truncate", "os.Truncate") {
				c.Check(wiped.arg(1).isInt() && wiped.arg(1).intVal() == 0, r, x, wiped, "overwritten from the start", "an overwrite keeps part of the old content")
			}
			if wiped != nil && wiped.is("(pkg/config.MagneticTapeIO).SeekToRecordOnTape") {
				c.Check(wiped.arg(2).isInt() && wiped.arg(2).intVal() == 0, r, x, wiped, "overwritten from the start", "an overwrite does not start at the beginning of the tape")
			}
		}
	}
	c.Check(seen["tape"] && seen["regular "+over.Name], r, nil, nil, "both kinds", "opening a regular drive or a tape for appending never succeeds")
}

func tapeOpenRead(c *Ctx) {
	r := c.Run("pkg/tape", "", "OpenTapeReadOnly", RunOpt{})
	if r == nil {
		return
	}
	ok := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		c.Check(x.Kind == "return", r, x, nil, "panic", "opening the drive can panic")
		for _, ev := range x.events() {
			c.Check(!destroys(ev), r, x, ev, "destructive "+ev.Callee, "opening the drive for reading changes it")
			if isOpen(ev) {
				fl, k := openFlags(ev)
				c.Check(k && fl&3 == 0 && fl&int64(os.O_CREATE|os.O_TRUNC) == 0, r, x, ev, "read-only", "the drive is opened for reading with flags that allow changing it")
				c.Check(ev.arg(0) == r.param(0), r, x, ev, "drive opened", "something other than the configured drive is opened")
			}
		}
		if r.mayOk(x) && len(x.Results) == 3 {
			ok = true
			kindReported(c, r, x)
			op := find(x.events(), func(e *Event) bool { return isOpen(e) && strip(e.Results[0]) == strip(x.Results[0]) })
			c.Check(op != nil && (r.isNilOn(x, op.err()) == 1 || r.errResult(x) == op.err()), r, x, op, "file returned", "the returned file is not the one that was opened")
		}
	}
	c.Check(ok, r, nil, nil, "can succeed", "the drive can never be opened for reading")
}

// files are closed or handed out.
func tapeOpenLeaks(c *Ctx) {
	for _, n := range []string{"OpenTapeWriteOnly", "OpenTapeReadOnly"} {
		r := c.Run("pkg/tape", "", n, RunOpt{})
		if r == nil {
			return
		}
		c.errDiscipline(r, func(ev *Event, x *Exit) bool {
			return ev.is("os.Stat") // a drive which does not exist yet
		})
		for _, x := range r.Exits {
			if x.Kind != "return" || len(x.Results) != 3 {
				continue
			}
			evs := x.events()
			for i, ev := range evs {
				if !isOpen(ev) || r.isNilOn(x, ev.err()) == -1 {
					continue
				}
				f := strip(ev.Results[0])
				out := strip(x.Results[0]) == f
				c.Check(out || closedBy(evs[i:], f) || r.isNilOn(x, ev.err()) == 0, r, x, ev, "file closed", "the drive stays open after opening it failed")
				if out && r.isNilOn(x, r.errResult(x)) == 1 {
					c.Check(!closedBy(evs[i:], f), r, x, ev, "handed out open", "the returned file has already been closed")
				}
			}
		}
	}
}

// ---- the tape manager -------------------------------------------------------

type tmSeq struct {
	*seq
	c                        *Ctx
	gw, gr, cl               *ssa.Function
	drive, mt, rs, overwrite *Term
}

func tmRecv(p *seqExit) []*Term {
	for p.prev != nil {
		p = p.prev
	}
	return []*Term{p.x.Results[0]}
}

func (c *Ctx) newTM(label string) (*tmSeq, []*seqExit) {
	nw := c.fn("pkg/tape", "", "NewTapeManager")
	t := &tmSeq{c: c, gw: c.fn("pkg/tape", "TapeManager", "GetWriter"), gr: c.fn("pkg/tape", "TapeManager", "GetReader"), cl: c.fn("pkg/tape", "TapeManager", "Close")}
	if nw == nil || t.gw == nil || t.gr == nil || t.cl == nil {
		return nil, nil
	}
	in := inlineExcept("pkg/tape.OpenTapeWriteOnly", "pkg/tape.OpenTapeReadOnly")
	s, xs := c.newSeq(nw, "(*pkg/tape.TapeManager)"+label, in, nil)
	t.seq = s
	t.drive, t.mt, t.rs, t.overwrite = s.r.param(0), s.r.param(1), s.r.param(2), s.r.param(3)
	return t, xs
}

func (t *tmSeq) get(xs []*seqExit, fn *ssa.Function) []*seqExit { return t.then(xs, fn, tmRecv) }

func (t *tmSeq) ok(xs []*seqExit) []*seqExit {
	var out []*seqExit
	for _, s := range xs {
		if s.x.Kind == "return" && errOf(t.r, s) != -1 {
			out = append(out, s)
		}
	}
	return out
}

func (t *tmSeq) failed(xs []*seqExit) []*seqExit {
	var out []*seqExit
	for _, s := range xs {
		if s.x.Kind == "return" && errOf(t.r, s) == -1 {
			out = append(out, s)
		}
	}
	return out
}

// errOf: 1 success, -1 failure, 0 unknown.
func errOf(r *Run, s *seqExit) int {
	if len(s.x.Results) == 0 {
		return 1
	}
	return r.isNilOn(s.x, s.x.Results[len(s.x.Results)-1])
}

func opener(evs []*Event, name string) *Event { return find(evs, named("pkg/tape."+name)) }

// every step leaves the locks as it must: a failed call leaves none behind,
// a call between open and close never needs one that is already held.
func (t *tmSeq) locks(xs []*seqExit, after string, open func(*seqExit) bool) {
	for _, s := range xs {
		if s.x.Kind == "cut" {
			continue
		}
		t.c.Check(s.x.Kind == "return", t.r, s.x, nil, "panic in "+after, "the call can panic")
		held := map[*Term]bool{}
		for _, ev := range s.x.events() {
			a := ev.arg(0)
			if isMutexOp(ev.Callee, "Lock") {
				t.c.Check(!held[a], t.r, s.x, ev, after+": lock taken twice", "a lock is waited for which this very sequence of calls holds: the call never returns")
				held[a] = true
			} else if isMutexOp(ev.Callee, "Unlock") {
				t.c.Check(held[a], t.r, s.x, ev, after+": unlock", "a lock is released that is not held, which crashes the process")
				delete(held, a)
			}
		}
		want := 0
		if open(s) {
			want = 1
		}
		t.c.Check(len(held) == want, t.r, s.x, nil, after+": drive lock", map[bool]string{true: "the drive is handed out without being reserved", false: "the drive stays reserved although nothing is open: the next call never returns"}[want == 1])
	}
}

func always(*seqExit) bool { return true }
func never(*seqExit) bool  { return false }

// writer: what a successful or failed GetWriter did.
func (t *tmSeq) writer(xs []*seqExit, after string, first bool) {
	for _, s := range xs {
		if s.x.Kind == "cut" {
			continue
		}
		ow := opener(s.own(), "OpenTapeWriteOnly")
		if !t.c.Check(ow != nil || errOf(t.r, s) == -1, t.r, s.x, nil, after+": opened", "a writer is handed out that this call did not open") || ow == nil {
			continue
		}
		o := ow.arg(3)
		v := t.r.at(ow, o)
		if first {
			t.c.Check(v == -1 || o == t.overwrite || t.r.at(ow, t.overwrite) == v && v != 0, t.r, s.x, ow, after+": overwrite as configured", "the tape is overwritten although the manager was not told to (or kept although it was)")
		} else {
			t.c.Check(v == -1, t.r, s.x, ow, after+": no second overwrite", "a later write of the same session overwrites what the session has already written")
		}
		t.c.Check(ow.arg(0) == t.drive && ow.arg(1) == t.mt && ow.arg(2) == t.rs, t.r, s.x, ow, after+": configuration", "the writer is opened with something other than the configured drive, tape interface or record size")
		if errOf(t.r, s) == -1 {
			continue
		}
		t.c.Check(t.r.isNilOn(s.x, ow.err()) == 1, t.r, s.x, ow, after+": open error", "success although the drive could not be opened")
		w := s.x.Results[0]
		t.c.Check(strip(t.r.fieldT(w, "Drive")) == strip(ow.Results[0]) && strip(t.r.fieldT(w, "DriveIsRegular")) == strip(ow.Results[1]), t.r, s.x, ow, after+": writer returned", "the returned writer or its kind is not what was opened")
	}
}

func (t *tmSeq) reader(xs []*seqExit, after string) {
	for _, s := range xs {
		if s.x.Kind == "cut" || errOf(t.r, s) == -1 {
			continue
		}
		or := opener(s.own(), "OpenTapeReadOnly")
		if or == nil {
			continue
		}
		t.c.Check(or.arg(0) == t.drive, t.r, s.x, or, after+": drive", "the reader is not opened on the configured drive")
		t.c.Check(t.r.isNilOn(s.x, or.err()) == 1, t.r, s.x, or, after+": open error", "success although the drive could not be opened")
		w := s.x.Results[0]
		t.c.Check(strip(t.r.fieldT(w, "Drive")) == strip(or.Results[0]) && strip(t.r.fieldT(w, "DriveIsRegular")) == strip(or.Results[1]), t.r, s.x, or, after+": reader returned", "the returned reader or its kind is not what was opened")
	}
}

// closes: Close closes what the call before it opened.
func (t *tmSeq) closes(xs []*seqExit, after, by string) {
	n := 0
	for _, s := range xs {
		if s.x.Kind == "cut" {
			continue
		}
		op := opener(s.prev.own(), by)
		if op == nil {
			continue
		}
		n++
		cl := find(s.own(), func(e *Event) bool { return e.is("(*os.File).Close") })
		if !t.c.Check(cl != nil && cl.arg(0) == strip(op.Results[0]), t.r, s.x, op, after+": closed", "closing the drive does not close the file that was opened last") {
			continue
		}
		if errOf(t.r, s) != -1 {
			t.c.Check(t.r.isNilOn(s.x, cl.err()) == 1 || len(s.x.Results) > 0 && strip(s.x.Results[len(s.x.Results)-1]) == cl.err(), t.r, s.x, cl, after+": close error", "success although closing the drive failed")
		}
	}
	t.c.Check(n > 0, t.r, nil, nil, after+": reached", "the call sequence is never completed")
}

func tapeManager(c *Ctx) {
	t, x0 := c.newTM("")
	if t == nil {
		return
	}
	acc := map[string][]*tmAccess{}
	t.r.E.Access = func(st *State, fr *FrameInfo, addr *Term, write bool, pos token.Pos) {
		a := strip(addr)
		if a == nil || a.Op != "fldaddr" || len(a.Args) == 0 || rootOf(a) == nil || typeName(a.Args[0].Typ) != "TapeManager" && !strings.HasSuffix(typeName(a.Args[0].Typ), ".TapeManager") || fr.Fn.Signature.Recv() == nil {
			return
		}
		held := map[*Term]int{}
		if st.trace != nil {
			held = heldLocks(st.trace.Events())
		}
		acc[a.Name] = append(acc[a.Name], &tmAccess{write, held, pos, fr.Fn})
	}
	// write, write again
	w1 := t.get(x0, t.gw)
	t.locks(w1, "write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.writer(w1, "write", true)
	c1 := t.get(t.ok(w1), t.cl)
	t.locks(c1, "write, close", never)
	t.closes(c1, "write, close", "OpenTapeWriteOnly")
	w2 := t.get(t.ok(c1), t.gw)
	t.locks(w2, "write, close, write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.writer(w2, "write, close, write", false)
	c2 := t.get(t.ok(w2), t.cl)
	t.locks(c2, "write, close, write, close", never)
	t.closes(c2, "write, close, write, close", "OpenTapeWriteOnly")
	w5 := t.get(t.ok(c2), t.gw)
	t.locks(w5, "three writes", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.writer(w5, "three writes", false)
	// a failed open leaves the drive free
	f2 := t.get(t.failed(w1), t.gw)
	t.locks(f2, "failed write, write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	// write, read, write: what an operation does
	r2 := t.get(t.ok(c1), t.gr)
	t.locks(r2, "write, close, read", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.reader(r2, "write, close, read")
	c3 := t.get(t.ok(r2), t.cl)
	t.locks(c3, "write, close, read, close", never)
	t.closes(c3, "write, close, read, close", "OpenTapeReadOnly")
	w3 := t.get(t.ok(c3), t.gw)
	t.locks(w3, "write, close, read, close, write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.writer(w3, "write, close, read, close, write", false)
	// read first
	r1 := t.get(x0, t.gr)
	t.locks(r1, "read", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.reader(r1, "read")
	c4 := t.get(t.ok(r1), t.cl)
	t.locks(c4, "read, close", never)
	t.closes(c4, "read, close", "OpenTapeReadOnly")
	w4 := t.get(t.ok(c4), t.gw)
	t.locks(w4, "read, close, write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.writer(w4, "read, close, write", true)
	fr := t.get(t.failed(r1), t.gw)
	t.locks(fr, "failed read, write", func(s *seqExit) bool { return errOf(t.r, s) == 1 })
	t.r.E.Access = nil
	t.shared(acc)
	r3 := t.get(t.ok(c4), t.gr)
	// the file is closed by now, so seeking in it fails and it is opened again
	for _, s := range r3 {
		if s.x.Kind != "return" || errOf(t.r, s) == -1 {
			continue
		}
		if opener(s.own(), "OpenTapeReadOnly") == nil {
			pr := find(s.own(), func(e *Event) bool { return e.is("(*os.File).Seek") })
			c.Check(pr != nil && t.r.isNilOn(s.x, pr.err()) == 1, t.r, s.x, pr, "read, close, read: reopened", "a closed reader is handed out again")
		}
	}
}

// tmAccess is a use of one of the manager's own fields.
type tmAccess struct {
	write bool
	held  map[*Term]int
	pos   token.Pos
	in    *ssa.Function
}

// shared: a field that is assigned while another call can use it is only used
// under a lock in common.
func (t *tmSeq) shared(acc map[string][]*tmAccess) {
	var names []string
	for n := range acc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t.c.Ob(t.r.Name, "field "+n)
		for _, w := range acc[n] {
			if !w.write {
				continue
			}
			bad := (*tmAccess)(nil)
			for _, a := range acc[n] {
				common := false
				for l := range w.held {
					common = common || a.held[l] > 0
				}
				if !common {
					bad = a
				}
			}
			if bad != nil {
				t.c.Fail(t.r.Name, "field "+n, t.c.P.At(bad.pos), "the drive's "+n+" is used in "+fnName(bad.in)+" without a lock which "+fnName(w.in)+" holds when it assigns it: calls of the reading and the writing side race", nil)
				break
			}
		}
	}
}

// tapeSites: nothing outside the analysed packages can change files.
func tapeSites(c *Ctx) {
	allowed := map[string]bool{
		"pkg/tape":            true, // the rules above
		"pkg/cache":           true, // the caches' own directory
		"internal/persisters": true, // the index file's directory
		"pkg/persisters":      true,
		"cmd/stfs/cmd":        true, // the user's own files
		"internal/db":         true,
	}
	n := 0
	for _, ci := range c.callSites(func(s string) bool {
		switch s {
		case "os.OpenFile", "os.Create", "os.Truncate", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "(*os.File).Truncate", "(*os.File).WriteAt", "os.MkdirAll", "os.Mkdir", "os.CreateTemp", "os.MkdirTemp", "os.Link", "os.Symlink", "os.Chmod", "io/ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir", "syscall.Open", "syscall.Syscall":
			return true
		}
		return false
	}) {
		fn := ci.Parent()
		pkg := fnPkg(fn)
		name := calleeName(ci.Common())
		n++
		ok := allowed[pkg] || strings.HasPrefix(pkg, "cmd/") || strings.HasPrefix(pkg, "examples/") || pkg == "pkg/mtio" && name == "syscall.Syscall"
		if !ok && name == "os.OpenFile" {
			if k, isC := ci.Common().Args[1].(*ssa.Const); isC && k.Int64()&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
				ok = true
			}
		}
		c.Ob(fnName(fn), name)
		if !ok {
			c.Fail(fnName(fn), name, c.P.At(ci.Pos()), "files can be changed outside the code that opens the drive", nil)
		}
	}
	if n < 3 {
		c.Fail("pkg/tape", "sites", "?", "fewer than 3 file-changing calls found ("+strconv.Itoa(n)+")", nil)
	}
}

var _ = types.Identical

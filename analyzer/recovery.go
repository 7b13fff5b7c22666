package main

import (
	"strconv"
	"strings"
)

const (
	tarNext    = "(*archive/tar.Reader).Next"
	tarNewRead = "archive/tar.NewReader"
	recPkg     = "internal/records"
)

// idxOpt is one scenario of indexing: what kind of drive, what every header says.
type idxOpt struct {
	key     string
	visits  int
	regular int               // 1, -1, 0 either
	has     map[string]bool   // PAX keys present or absent
	val     map[string]string // PAX values
	rel     func(*Event) bool
	err     func(e *Engine, ev *Event, st *State)
}

var idxPax = []string{"STFSRecordVersion", "STFSRecordAction", "STFSRecordReplacesContent", "STFSRecordReplacesName", "STFSRecordUncompressedSize"}

func (c *Ctx) paxKey(name string) string { return c.constStr(recPkg, name) }

// isCB: a call of the function-typed parameter i (not counting the receiver).
func (r *Run) isCB(ev *Event, i int) bool {
	return ev.Callee == "dyn" && len(ev.Args) > 0 && strip(ev.Args[0]) == r.param(i)
}

func (c *Ctx) indexRun(o idxOpt) *Run {
	var run *Run
	if o.key != "" {
		o.key = "idx " + o.key
	}
	return c.Run("pkg/recovery", "", "Index", RunOpt{Visits: o.visits, MaxItems: 1500000, Key: o.key, Relevant: o.rel,
		Setup: func(r *Run, st *State) {
			run = r
			if o.regular != 0 {
				r.E.assume(st, r.E.field(r.Args[0], "DriveIsRegular", nil), o.regular == 1)
			}
		},
		Observe: func(e *Engine, ev *Event, st *State) {
			if o.err != nil {
				o.err(e, ev, st)
			}
			var hdr *Term
			switch {
			case run.isCB(ev, 11), run.isCB(ev, 10):
				hdr = e.outOf(ev, 1, nil)
			case ev.is(tarNext) && len(ev.Results) > 0 && len(o.has)+len(o.val) > 0:
				if p := ptrElem(ev.Results[0].Typ); p != nil {
					hdr = e.load(st, strip(ev.Results[0]), p)
				}
			}
			if hdr != nil {
				m := e.field(hdr, "PAXRecords", nil)
				for k, b := range o.has {
					e.assume(st, e.app("maphas", m, e.mkStr(c.paxKey(k))), b)
					if !b {
						e.assume(st, e.eq(e.app("mapget", m, e.mkStr(c.paxKey(k))), e.mkStr("")), true)
					}
				}
				for k, v := range o.val {
					e.assume(st, e.app("maphas", m, e.mkStr(c.paxKey(k))), true)
					e.assume(st, e.eq(e.app("mapget", m, e.mkStr(c.paxKey(k))), e.mkStr(v)), true)
				}
			}
		}})
}

func noPax() map[string]bool {
	m := map[string]bool{}
	for _, k := range idxPax {
		m[k] = false
	}
	return m
}

// mutation: what indexing a header does to the index.
func idxMutation(ev *Event) bool {
	return ev.is(mp+"UpsertHeader", mp+"UpdateHeaderMetadata", mp+"MoveHeader", mp+"DeleteHeader")
}

func isUseOfHeader(ev *Event) bool { return idxMutation(ev) || ev.is(mp+"GetHeader") }

func (r *Run) gvalT(name string) *Term { return r.E.tt.mk("gval", name, nil) }

// isErr: the error is known to be the named sentinel.
func (r *Run) isErr(x *Exit, t *Term, names ...string) bool {
	for _, n := range names {
		if strings.HasPrefix(n, "pkg/") {
			n = modulePath + "/" + n
		}
		if r.fact(x, r.E.eq(t, r.gvalT(n))) == 1 {
			return true
		}
	}
	return false
}

// verified: the verify callback's last call before event i and what it left.
func (r *Run) verified(evs []*Event, i int) (*Event, *Term) {
	_, v := lastBefore(evs, i, func(e *Event) bool { return r.isCB(e, 11) })
	if v == nil {
		return nil, nil
	}
	return v, r.E.outOf(v, 1, nil)
}

// ---- nothing is indexed that has not been decrypted and verified --------

func indexGate(c *Ctx) {
	for _, reg := range []int{1, -1} {
		for _, o := range []idxOpt{{key: "all", visits: 1, regular: reg}, {key: "foreign2", visits: 2, regular: reg, has: noPax()}} {
			o.key += strconv.Itoa(reg)
			r := c.indexRun(o)
			if r == nil {
				return
			}
			some := false
			for _, x := range r.Exits {
				evs := x.events()
				for i, ev := range evs {
					if r.isCB(ev, 11) || r.isCB(ev, 10) {
						_, nx := lastBefore(evs, i, named(tarNext))
						if c.Check(nx != nil, r, x, ev, "header read", "a header is decrypted or verified that was not read from the tape") {
							c.Check(ev.arg(1) == strip(nx.Results[0]), r, x, ev, "header read", "the header that is decrypted or verified is not the one that was just read")
							c.Check(r.isNilOn(x, nx.err()) == 1 || r.isNilOn(x, nx.Results[0]) == -1, r, x, ev, "header complete", "a header is used although reading it failed")
						}
					}
					if r.isCB(ev, 11) {
						_, d := lastBefore(evs, i, func(e *Event) bool { return r.isCB(e, 10) || e.is(tarNext) })
						if c.Check(d != nil && r.isCB(d, 10), r, x, ev, "decrypted first", "a header is verified without having been decrypted") {
							c.Check(r.isNilOn(x, d.err()) == 1, r, x, d, "decryption result", "a header that could not be decrypted is used")
						}
						c.Check(len(ev.Args) > 2 && strip(ev.Args[2]) == strip(r.fieldT(r.Args[0], "DriveIsRegular")), r, x, ev, "drive kind", "the verification is not told the kind of the drive")
					}
					if !isUseOfHeader(ev) {
						continue
					}
					some = true
					_, nx := lastBefore(evs, i, named(tarNext))
					j, v := lastBefore(evs, i, func(e *Event) bool { return r.isCB(e, 11) })
					k, _ := lastBefore(evs, i, named(tarNext))
					if !c.Check(v != nil && nx != nil && j > k, r, x, ev, "verified first", "a header is indexed that has not been verified") {
						continue
					}
					c.Check(r.isNilOn(x, v.err()) == 1, r, x, ev, "verification result", "a header is indexed although its verification failed")
					out := r.E.outOf(v, 1, nil)
					for a := 2; a < len(ev.Args); a++ {
						raw := nx.Results[0]
						t := ev.snap(a)
						bad := t.contains(func(s *Term) bool {
							return (s.Op == "deref" || s.Op == "fld" || s.Op == "fldaddr") && len(s.Args) > 0 && rootOf(s) == strip(raw)
						})
						c.Check(!bad, r, x, ev, "verified data", "index data is taken from the header as it was before decryption and verification")
					}
					_ = out
				}
			}
			c.Check(some, r, nil, nil, "headers are indexed", "no header is ever indexed")
		}
	}
}

// ---- every header read is handed on, with its number --------------------

func indexOffsets(c *Ctx) {
	for _, reg := range []int{1, -1} {
		r := c.indexRun(idxOpt{key: "foreign3" + strconv.Itoa(reg), visits: 3, regular: reg, has: noPax()})
		if r == nil {
			return
		}
		off := r.param(9)
		ok := 0
		for _, x := range r.Exits {
			evs := x.events()
			n := 0
			for i, ev := range evs {
				if !ev.is(tarNext) || r.isNilOn(x, ev.Results[0]) == -1 == false && r.isNilOn(x, ev.err()) != 1 {
					continue
				}
				// what follows until the next header or the end
				end, _ := firstFrom(evs, i+1, named(tarNext))
				last := end < 0
				if last {
					end = len(evs)
				}
				body := evs[i+1 : end]
				d := find(body, func(e *Event) bool { return r.isCB(e, 10) })
				if d != nil {
					ok++
					c.Check(strip(d.Args[2]) == r.E.sub(r.E.mkInt(int64(n)), off), r, x, d, "header number", "the number handed to the decryption callback is not the header's index after the offset, so the wrong header is substituted")
					c.Check(r.at(d, r.E.lt(r.E.mkInt(int64(n)), off, true)) == -1, r, x, d, "offset respected", "a header before the offset is indexed again")
				} else if !last || r.mayOk(x) {
					c.Check(r.fact(x, r.E.lt(r.E.mkInt(int64(n)), off, true)) == 1, r, x, ev, "header skipped", "a header that was read is skipped although it is not before the offset")
				}
				if d != nil && (!last || r.mayOk(x)) {
					mut := find(body, isUseOfHeader)
					c.Check(mut != nil, r, x, d, "header indexed", "a header is read and verified but never indexed")
				}
				n++
			}
		}
		c.Check(ok > 0, r, nil, nil, "offsets", "no header is ever decrypted")
	}
}

// ---- positions ----------------------------------------------------------

// pair checks that (rec, blk) is the block position that pos bytes correspond to.
func (r *Run) pairIs(rec, blk, pos *Term) bool {
	e := r.E
	rs := r.fieldT(r.recordSizeOwner(), "RecordSize")
	p := e.mul(e.mkInt(512), e.add(e.mul(rs, rec), blk))
	if p == pos {
		return true
	}
	return p == e.mul(e.mkInt(512), e.ceildiv(pos, e.mkInt(512)))
}

func (r *Run) recordSizeOwner() *Term {
	for i := range r.Args {
		if typeName(r.Args[i].Typ) == "PipeConfig" {
			return r.Args[i]
		}
	}
	return r.Args[0]
}

// blockInRange: a remainder modulo the record size, zero, or the caller's block.
func (r *Run) blockInRange(blk *Term, caller int) bool {
	b := strip(blk)
	if b == r.param(caller) || b.isInt() && b.intVal() == 0 {
		return true
	}
	_, n, ok := r.E.asRem(b)
	return ok && n == strip(r.fieldT(r.recordSizeOwner(), "RecordSize"))
}

// tapePos follows the drive's position through the events before index n: the
// position the next header starts at, or nil when it cannot be told.
type drivePos struct {
	pos     *Term // exact, in bytes
	rounded bool  // the header starts at the next block boundary
	fresh   bool  // a new tar reader was made here
	ok      bool
	why     string
}

func (r *Run) headerPos(x *Exit, evs []*Event, n int, blockArg *Term) drivePos {
	e := r.E
	rs := r.fieldT(r.recordSizeOwner(), "RecordSize")
	ids := evPos(x)
	var p drivePos
	counters := map[*Term]bool{} // addresses of the counters in use
	recOf := func(t *Term) *Term { return e.mul(e.mkInt(512), e.mul(rs, t)) }
	for i := 0; i < n; i++ {
		ev := evs[i]
		switch {
		case ev.is("(io.Seeker).Seek"):
			w := ev.arg(2)
			switch {
			case w.isInt() && w.intVal() == 0:
				p = drivePos{pos: ev.arg(1), ok: true}
			case w.isInt() && w.intVal() == 1 && ev.arg(1).isInt() && ev.arg(1).intVal() == 0:
				p = drivePos{pos: strip(ev.Results[0]), rounded: !p.fresh, ok: true}
			default:
				p = drivePos{}
			}
		case ev.is("(pkg/config.MagneticTapeIO).SeekToRecordOnTape"):
			p = drivePos{pos: recOf(ev.arg(2)), ok: true}
		case ev.is("(pkg/config.MagneticTapeIO).GoToNextFileOnTape"):
			p = drivePos{}
		case ev.is("(pkg/config.MagneticTapeIO).GetCurrentRecordFromTape"):
			p = drivePos{pos: recOf(strip(ev.Results[0])), ok: true}
		case ev.is("(*bufio.Reader).Read", "io.ReadFull", "(*bufio.Reader).Discard") && p.ok:
			if l := e.length(ev.arg(1)); p.pos != nil {
				p.pos = e.add(p.pos, l)
			}
		case ev.is(tarNewRead):
			if a := ev.arg(0); a != nil && a.Op == "alloc" {
				counters[a] = true
				p.why = ""
				b := r.fieldT(ev.snap(0), "BytesRead")
				if p.ok && strip(b) != p.pos {
					p.why = "the byte counter does not start at the drive's position"
				}
			}
			p.rounded, p.fresh = false, true
		case ev.is(tarNext):
			p = drivePos{fresh: false}
		case ev.is("io.Copy", "io.CopyN"):
			p = drivePos{}
		case ev.is("(io.Reader).Read"):
			p = drivePos{}
		}
	}
	if !p.ok && len(counters) > 0 {
		// the counter as it was read after the last content and before this header
		var best *Term
		for t := range e.countersOf() {
			if at, ok := ids[counterID(t)]; ok && at < n+1 {
				prev, _ := lastBefore(evs, n, func(ev *Event) bool { return ev.is("io.Copy", tarNext, tarNewRead) })
				if at > prev {
					best = t
				}
			}
		}
		if best != nil {
			p = drivePos{pos: best, rounded: true, ok: true}
		}
	}
	return p
}

// countersOf lists the counter readings the engine has made.
func (e *Engine) countersOf() map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range e.tt.m {
		if t.isApp("counter") {
			m[t] = true
		}
	}
	return m
}

func counterID(t *Term) int { return int(t.Args[1].intVal()) }

// positions of one mutation: (record, block) pairs it stores.
func (r *Run) storedPairs(ev *Event) (content, last [2]*Term) {
	switch {
	case ev.is(mp+"UpsertHeader", mp+"UpdateHeaderMetadata"):
		h := ev.snap(2)
		f := func(n string) *Term { return strip(r.fieldT(h, n)) }
		return [2]*Term{f("Record"), f("Block")}, [2]*Term{f("Lastknownrecord"), f("Lastknownblock")}
	case ev.is(mp + "DeleteHeader"):
		return content, [2]*Term{ev.arg(3), ev.arg(4)}
	case ev.is(mp + "MoveHeader"):
		return content, [2]*Term{ev.arg(4), ev.arg(5)}
	}
	return
}

func indexPositions(c *Ctx) {
	for _, reg := range []int{1, -1} {
		for _, o := range []idxOpt{{key: "all", visits: 1, regular: reg}, {key: "foreign3", visits: 3, regular: reg, has: noPax()}} {
			o.key += strconv.Itoa(reg)
			r := c.indexRun(o)
			if r == nil {
				return
			}
			n := 0
			for _, x := range r.Exits {
				evs := x.events()
				for i, ev := range evs {
					if !idxMutation(ev) {
						continue
					}
					k, nx := lastBefore(evs, i, named(tarNext))
					if nx == nil {
						continue
					}
					p := r.headerPos(x, evs, k, r.param(6))
					if !c.Check(p.ok && p.pos != nil, r, x, ev, "position known", "a record is indexed whose position on the drive was not measured between the previous record and this one") {
						continue
					}
					c.Check(p.why == "", r, x, ev, "counter base", p.why)
					content, last := r.storedPairs(ev)
					c.Check(last[0] != nil && r.pairIs(last[0], last[1], p.pos), r, x, ev, "last known position", "the last-known position stored for an entry is not where the record that was read starts")
					c.Check(last[1] != nil && r.blockInRange(last[1], 6), r, x, ev, "block in range", "the stored block is not smaller than the record size")
					if content[0] != nil {
						// a position kept from the existing row is decided by the action rule
						kept := content[0].Op != "" && strings.Contains(content[0].String(), "GetHeader")
						if !kept {
							n++
							c.Check(content[0] == last[0] && content[1] == last[1], r, x, ev, "content position", "the content position stored for an entry is not the record that carries the content")
						}
					}
				}
			}
			c.Check(n > 0, r, nil, nil, "positions", "no record is ever indexed")
		}
	}
}

// ---- walking the drive ---------------------------------------------------

func indexWalk(c *Ctx) {
	e512 := int64(512)
	// a regular drive
	r := c.indexRun(idxOpt{key: "walk", visits: 2, regular: 1, has: noPax()})
	if r == nil {
		return
	}
	rs := strip(r.fieldT(r.recordSizeOwner(), "RecordSize"))
	start := r.E.mul(r.E.mkInt(e512), r.E.add(r.E.mul(rs, r.param(5)), r.param(6)))
	for _, x := range r.Exits {
		if x.Kind == "panic" {
			c.Check(false, r, x, nil, "panic", "indexing can crash the process")
			continue
		}
		evs := x.events()
		first := true
		var tried *Term // absolute position of the last failed attempt
		for i, ev := range evs {
			switch {
			case ev.is("(io.Seeker).Seek") && ev.arg(2).isInt() && ev.arg(2).intVal() == 0:
				off := ev.arg(1)
				if first {
					c.Check(off == start, r, x, ev, "start position", "indexing does not start at the requested record and block")
					first = false
				}
				c.Check(r.E.toPoly(off).divisible(e512), r, x, ev, "block aligned", "the drive is positioned inside a block")
				if tried != nil {
					d := r.E.sub(off, tried)
					c.Check(d.isInt() && d.intVal() == e512, r, x, ev, "next block", "after a block that is no header the search does not continue exactly one block later, so it never ends or misses records")
					tried = nil
				}
			case ev.is(tarNewRead):
				p := r.headerPos(x, evs, i, nil)
				c.Check(p.ok && (r.E.toPoly(p.pos).divisible(e512)), r, x, ev, "reader at block", "a tar reader is started at a position that is not known to be the start of a block")
			case ev.is(tarNext):
				if r.isNilOn(x, ev.err()) == -1 {
					// an attempt made right after positioning the drive by hand
					j, s := lastBefore(evs, i, named("(io.Seeker).Seek"))
					k, _ := lastBefore(evs, i, named(tarNext))
					if s != nil && j > k && s.arg(2).isInt() && s.arg(2).intVal() == 0 && !(k < 0) {
						if r.isErr(x, ev.err(), "io.EOF") {
							tried = nil
						} else {
							tried = s.arg(1)
						}
					}
				}
			case ev.is("loop"):
			}
		}
		if x.Kind == "cut" && tried != nil {
			c.Check(false, r, x, nil, "next block", "after a block that is no header the search starts over at the same place: indexing never ends")
		}
	}
	// what ends indexing successfully
	for _, reg := range []int{1, -1} {
		r := c.indexRun(idxOpt{key: "foreign2" + strconv.Itoa(reg), visits: 2, regular: reg, has: noPax()})
		n := 0
		for _, x := range r.okExits() {
			n++
			evs := x.events()
			i, ev := lastBefore(evs, len(evs), named(tarNext, "io.Copy"))
			if !c.Check(ev != nil, r, x, nil, "read to the end", "indexing succeeds without reading the drive") {
				continue
			}
			switch {
			case ev.is("io.Copy"):
				c.Check(r.isErr(x, ev.err(), "io.ErrUnexpectedEOF"), r, x, ev, "read to the end", "indexing stops successfully before the end of the drive was reached")
			case reg == 1:
				rd := find(evs[i:], named("(io.Reader).Read"))
				c.Check(r.isNilOn(x, ev.err()) == -1 && (rd == nil || r.isErr(x, rd.err(), "io.EOF")), r, x, ev, "read to the end", "indexing stops successfully before the end of the drive was reached (an archive's end is not the end of the tape)")
				c.Check(rd != nil, r, x, ev, "end of drive", "the end of one archive is taken for the end of the tape")
			default:
				nf := find(evs[i:], named("(pkg/config.MagneticTapeIO).GoToNextFileOnTape"))
				c.Check(r.isNilOn(x, ev.err()) == -1 && nf != nil && r.isNilOn(x, nf.err()) == -1, r, x, ev, "read to the end", "indexing stops successfully before the last file on the tape was read")
			}
		}
		c.Check(n > 0, r, nil, nil, "can succeed", "indexing never succeeds")
	}
	// an I/O error is not the end of the drive
	for _, reg := range []int{1, -1} {
		r := c.indexRun(idxOpt{key: "ioerr" + strconv.Itoa(reg), visits: 2, regular: reg, has: noPax(), err: func(e *Engine, ev *Event, st *State) {
			if ev.is(tarNext) {
				for _, o := range []string{"io.EOF", "io.ErrUnexpectedEOF", "archive/tar.ErrHeader", "archive/tar.ErrFieldTooLong"} {
					e.assume(st, e.eq(ev.err(), e.tt.mk("gval", o, nil)), false)
				}
			}
		}})
		for _, x := range r.okExits() {
			evs := x.events()
			_, ev := lastBefore(evs, len(evs), named(tarNext, "io.Copy"))
			c.Check(ev == nil || !ev.is(tarNext) || r.isNilOn(x, ev.err()) != -1, r, x, ev, "I/O error", "an error of the drive is taken for the end of the tape, so the rest of the tape is dropped from the index without notice")
		}
	}
	// tape: where it starts
	rt := c.indexRun(idxOpt{key: "foreign2-1", visits: 2, regular: -1, has: noPax()})
	for _, x := range rt.Exits {
		evs := x.events()
		i, nr := firstFrom(evs, 0, named(tarNewRead))
		if nr == nil {
			continue
		}
		p := rt.headerPos(x, evs, i, nil)
		c.Check(p.ok && p.pos == start2(rt), rt, x, nr, "start position", "indexing a tape does not start at the requested record and block")
	}
}

func start2(r *Run) *Term {
	rs := strip(r.fieldT(r.recordSizeOwner(), "RecordSize"))
	return r.E.mul(r.E.mkInt(512), r.E.add(r.E.mul(rs, r.param(5)), r.param(6)))
}

// a cut-off or garbled tail is no error, everything else is
func indexTails(c *Ctx) {
	sent := []string{"io.EOF", "io.ErrUnexpectedEOF", "archive/tar.ErrHeader"}
	for _, s := range sent {
		for _, reg := range []int{1, -1} {
			if reg == -1 && s == "archive/tar.ErrHeader" {
				continue
			}
			r := c.indexRun(idxOpt{key: "tail" + s + strconv.Itoa(reg), visits: 2, regular: reg, has: noPax(), err: func(e *Engine, ev *Event, st *State) {
				if ev.is(tarNext) {
					for _, o := range sent {
						if o != s {
							e.assume(st, e.eq(ev.err(), e.tt.mk("gval", o, nil)), false)
						}
					}
					e.assume(st, e.eq(ev.err(), e.tt.mk("gval", "archive/tar.ErrFieldTooLong", nil)), false)
				}
			}})
			if r == nil {
				return
			}
			for _, x := range r.returns() {
				ret := r.errResult(x)
				for _, ev := range x.events() {
					if ev.is(tarNext) && ret == ev.err() && r.isNilOn(x, ev.err()) == -1 {
						c.Check(!r.isErr(x, ev.err(), s), r, x, ev, "tail "+s, "a tape whose tail is cut off or padded cannot be indexed at all")
						// an undecided error is the I/O error case
					}
				}
			}
			c.Ob(r.Name, "tail "+s)
		}
	}
	// and when the sentinel is the only way to fail
	for _, s := range sent {
		for _, reg := range []int{1, -1} {
			if reg == -1 && s == "archive/tar.ErrHeader" {
				continue
			}
			r := c.indexRun(idxOpt{key: "only" + s + strconv.Itoa(reg), visits: 2, regular: reg, has: noPax(), err: func(e *Engine, ev *Event, st *State) {
				switch {
				case ev.is(tarNext):
					e.assume(st, e.eq(ev.err(), e.tt.mk("gval", s, nil)), true)
				case ev.err() != nil && !ev.is("(io.Reader).Read", "(pkg/config.MagneticTapeIO).GoToNextFileOnTape"):
					e.assume(st, e.eq(ev.err(), e.mkNil()), true)
				case ev.is("(io.Reader).Read"):
					// nothing but the end of the drive can be met
					if e.known(st, e.eq(ev.err(), e.mkNil())) == 0 {
						e.assume(st, e.eq(ev.err(), e.tt.mk("gval", "io.EOF", nil)), true)
					}
				}
			}})
			if r == nil {
				return
			}
			n := 0
			for _, x := range r.returns() {
				n++
				c.Check(r.mayOk(x) && r.isNilOn(x, r.errResult(x)) == 1, r, x, nil, "tail only "+s, "a tape that ends in a torn or padded tail is rejected as a whole")
			}
			for _, x := range r.Exits {
				if x.Kind == "cut" {
					n++
				}
			}
			c.Check(n > 0, r, nil, nil, "tail only "+s, "nothing explored")
		}
	}
	// torn content
	for _, reg := range []int{1, -1} {
		r := c.indexRun(idxOpt{key: "torncontent" + strconv.Itoa(reg), visits: 1, regular: reg, has: noPax(), err: func(e *Engine, ev *Event, st *State) {
			if ev.err() == nil {
				return
			}
			if ev.is("io.Copy", "io.CopyN") {
				e.assume(st, e.eq(ev.err(), e.tt.mk("gval", "io.ErrUnexpectedEOF", nil)), true)
			} else {
				e.assume(st, e.eq(ev.err(), e.mkNil()), true)
			}
		}})
		if r == nil {
			return
		}
		n := 0
		for _, x := range r.returns() {
			cp := find(x.events(), named("io.Copy", "io.CopyN"))
			if cp == nil {
				continue
			}
			n++
			c.Check(r.isNilOn(x, r.errResult(x)) == 1, r, x, cp, "torn content", "a record whose content is cut off makes the whole tape unreadable")
		}
		c.Check(n > 0, r, nil, nil, "torn content", "nothing explored")
	}
}

func indexErrors(c *Ctx) {
	for _, reg := range []int{1, -1} {
		for _, o := range []idxOpt{{key: "all", visits: 1, regular: reg}, {key: "foreign2", visits: 2, regular: reg, has: noPax()}} {
			o.key += strconv.Itoa(reg)
			r := c.indexRun(o)
			if r == nil {
				return
			}
			c.errDiscipline(r, func(ev *Event, x *Exit) bool {
				switch {
				case ev.is(tarNext):
					// decided by the rule on walking the drive
					return true
				case ev.is("io.Copy"):
					return r.isErr(x, ev.err(), "io.ErrUnexpectedEOF")
				case ev.is("(io.Reader).Read"):
					return r.isErr(x, ev.err(), "io.EOF")
				case ev.is(mp + "GetHeader"):
					return r.isErr(x, ev.err(), "database/sql.ErrNoRows")
				case ev.is("(pkg/config.MagneticTapeIO).GoToNextFileOnTape"):
					return r.isNilOn(x, ev.err()) == -1
				}
				return false
			})
			for _, x := range r.Exits {
				c.Check(x.Kind != "panic", r, x, nil, "panic", "indexing can crash the process")
			}
			for pos, fn := range r.E.nilSinks {
				c.Fail(fnName(fn), "nil callback", c.P.At(pos), "a notification callback is called without checking that there is one, which crashes the process", nil)
			}
			c.Check(r.E.sinks > 0, r, nil, nil, "callback guarded", "headers are never reported")
		}
	}
}

// purging
func indexPurge(c *Ctx) {
	for _, reg := range []int{1, -1} {
		r := c.indexRun(idxOpt{key: "foreign2" + strconv.Itoa(reg), visits: 2, regular: reg, has: noPax()})
		if r == nil {
			return
		}
		over := r.param(7)
		n := 0
		for _, x := range r.Exits {
			evs := x.events()
			i, pg := firstFrom(evs, 0, named(mp+"PurgeAllHeaders"))
			if pg != nil {
				n++
				c.Check(r.fact(x, over) == 1, r, x, pg, "purge when asked", "the index is emptied although no overwrite was asked for")
				c.Check(i == 0 || find(evs[:i], idxMutation) == nil, r, x, pg, "purge first", "the index is emptied after records have been indexed")
				c.Check(count(evs, named(mp+"PurgeAllHeaders")) == 1, r, x, pg, "purge once", "the index is emptied more than once")
			} else if mut := find(evs, idxMutation); mut != nil {
				c.Check(r.fact(x, over) == -1, r, x, mut, "purge on overwrite", "an overwrite keeps stale rows in the index")
			}
		}
		c.Check(n > 0, r, nil, nil, "purge", "the index is never emptied on overwrite")
	}
}

// ---- what a record does to the index -------------------------------------

type idxAction struct {
	name string
	has  map[string]bool
	val  map[string]string
}

func (c *Ctx) idxScenario(name string, has map[string]bool, val map[string]string) *Run {
	return c.indexRun(idxOpt{key: "act " + name, visits: 1, regular: 1, has: has, val: val})
}

func seqOf(evs []*Event) []string {
	var out []string
	for _, ev := range evs {
		if isUseOfHeader(ev) {
			out = append(out, strings.TrimPrefix(ev.Callee, mp))
		}
	}
	return out
}

// rowFromHeader: every attribute of the row is the header's.
var rowAttrs = map[string]string{"Typeflag": "Typeflag", "Linkname": "Linkname", "Mode": "Mode", "UID": "Uid", "Gid": "Gid", "Uname": "Uname", "Gname": "Gname", "Modtime": "ModTime", "Accesstime": "AccessTime", "Changetime": "ChangeTime", "Devmajor": "Devmajor", "Devminor": "Devminor", "Format": "Format"}

func (r *Run) rowFromHeader(c *Ctx, x *Exit, ev *Event, out *Term) {
	row := ev.snap(2)
	for rf, hf := range rowAttrs {
		c.Check(strip(r.fieldT(row, rf)) == strip(r.fieldT(out, hf)), r, x, ev, "attribute "+rf, "the "+rf+" stored in the index is not the record's")
	}
	pax := strip(r.fieldT(row, "Paxrecords"))
	c.Check(pax.isApp("json") && strip(pax.Args[0]) == strip(r.fieldT(out, "PAXRecords")), r, x, ev, "attribute Paxrecords", "the extended records stored in the index are not the record's")
	del := strip(r.fieldT(row, "Deleted"))
	c.Check(del.isInt() && del.intVal() == 0 || del.Op == "zero", r, x, ev, "attribute Deleted", "an entry is stored as deleted although its record says it exists")
}

// nameIs: t is the record's name, with the pipeline's suffix removed exactly when it has one.
func (r *Run) nameIs(t, out *Term, suffixed bool) bool {
	t = strip(t)
	raw := strip(r.fieldT(out, "Name"))
	if !suffixed {
		return t == raw
	}
	pipes := r.recordSizeOwner()
	return resOf(t, 0, "internal/suffix.RemoveSuffix") && strip(t.Ev.Args[0]) == raw && strip(t.Ev.Args[1]) == strip(r.fieldT(pipes, "Compression")) && strip(t.Ev.Args[2]) == strip(r.fieldT(pipes, "Encryption"))
}

func indexActions(c *Ctx) {
	one := c.constStr(recPkg, "STFSRecordVersion1")
	create, del, upd := c.constStr(recPkg, "STFSRecordActionCreate"), c.constStr(recPkg, "STFSRecordActionDelete"), c.constStr(recPkg, "STFSRecordActionUpdate")
	tr, fa := c.constStr(recPkg, "STFSRecordReplacesContentTrue"), c.constStr(recPkg, "STFSRecordReplacesContentFalse")
	no := func(ks ...string) map[string]bool {
		m := map[string]bool{}
		for _, k := range ks {
			m[k] = false
		}
		return m
	}
	const V, A, RC, RN, U = "STFSRecordVersion", "STFSRecordAction", "STFSRecordReplacesContent", "STFSRecordReplacesName", "STFSRecordUncompressedSize"
	type sc struct {
		name string
		has  map[string]bool
		val  map[string]string
		want []string // allowed sequences of index calls, "" none; ">" separated
		size string   // "raw", "stored", "old"
		suff bool     // the name of a regular file is suffixed
		old  bool     // the old entry is named by ReplacesName
	}
	yes := func(ks ...string) map[string]bool {
		m := map[string]bool{}
		for _, k := range ks {
			m[k] = true
		}
		return m
	}
	_ = yes
	scs := []sc{
		{name: "foreign", has: no(V, A, RC, RN, U), want: []string{"UpsertHeader"}, size: "raw"},
		{name: "create", has: no(RC, RN, U), val: map[string]string{V: one, A: create}, want: []string{"UpsertHeader"}, size: "raw"},
		{name: "create with content", has: map[string]bool{RC: false, RN: false, U: true}, val: map[string]string{V: one, A: create}, want: []string{"UpsertHeader"}, size: "stored", suff: true},
		{name: "delete", has: no(RC, RN, U), val: map[string]string{V: one, A: del}, want: []string{"DeleteHeader"}},
		{name: "delete of an entry with content", has: map[string]bool{RC: false, RN: false, U: true}, val: map[string]string{V: one, A: del}, want: []string{"DeleteHeader"}},
		{name: "replace content", has: map[string]bool{RN: false, U: true}, val: map[string]string{V: one, A: upd, RC: tr}, want: []string{"UpdateHeaderMetadata"}, size: "stored", suff: true},
		{name: "replace content and name", has: map[string]bool{RN: true, U: true}, val: map[string]string{V: one, A: upd, RC: tr}, want: []string{"UpdateHeaderMetadata>MoveHeader"}, size: "stored", old: true},
		{name: "update metadata", has: map[string]bool{RN: false, U: false}, val: map[string]string{V: one, A: upd, RC: fa}, want: []string{"GetHeader>UpdateHeaderMetadata", "GetHeader"}, size: "old"},
		{name: "update metadata, size known", has: map[string]bool{RN: false, U: true}, val: map[string]string{V: one, A: upd, RC: fa}, want: []string{"GetHeader>UpdateHeaderMetadata", "GetHeader"}, size: "old"},
		{name: "update", has: no(RN, U, RC), val: map[string]string{V: one, A: upd}, want: []string{"GetHeader>UpdateHeaderMetadata", "GetHeader"}, size: "old"},
		{name: "move", has: map[string]bool{RN: true, U: false, RC: false}, val: map[string]string{V: one, A: upd}, want: []string{"GetHeader>UpdateHeaderMetadata>MoveHeader", "GetHeader>MoveHeader"}, size: "old", old: true},
		{name: "move, size known", has: map[string]bool{RN: true, U: true, RC: false}, val: map[string]string{V: one, A: upd}, want: []string{"GetHeader>UpdateHeaderMetadata>MoveHeader", "GetHeader>MoveHeader"}, size: "old", old: true},
	}
	for _, s := range scs {
		r := c.idxScenario(s.name, s.has, s.val)
		if r == nil {
			return
		}
		rk := c.paxKey(RN)
		ok := map[string]bool{}
		for _, x := range r.Exits {
			evs := x.events()
			vi, v := firstFrom(evs, 0, func(e *Event) bool { return r.isCB(e, 11) })
			if v == nil || r.isNilOn(x, v.err()) != 1 {
				continue
			}
			out := r.E.outOf(v, 1, nil)
			oldName := strip(r.fieldT(out, "Name"))
			if s.old {
				oldName = r.E.app("mapget", strip(r.fieldT(out, "PAXRecords")), r.E.mkStr(rk))
			}
			sq := seqOf(evs[vi:])
			got := strings.Join(sq, ">")
			fine := false
			for _, w := range s.want {
				if w == got || strings.HasPrefix(w, got) && x.Kind == "return" && !r.mayOk(x) {
					fine = true
				}
			}
			done := x.Kind == "cut" || find(evs[vi:], named("io.Copy")) != nil || x.Kind == "return" && r.mayOk(x)
			if done && got == "" {
				fine = false
			}
			var last *Event
			for _, ev := range evs[vi:] {
				if isUseOfHeader(ev) {
					last = ev
				}
			}
			if !fine && !done && got == "" {
				continue // failed before
			}
			if !c.Check(fine, r, x, last, s.name+": effect", "a record of kind ‘"+s.name+"’ has the effect ["+got+"] on the index instead of ["+strings.Join(s.want, "] or [")+"]") {
				continue
			}
			if done {
				ok[got] = true
			}
			reg := 0 // the header's own kind, as indexing has found it
			for f, b := range x.St.facts {
				if f.isApp("(io/fs.FileMode).IsRegular") && f.has(out) {
					reg = -1
					if b {
						reg = 1
					}
				}
			}
			suffixed := s.suff && reg != -1
			var gh *Event
			for _, ev := range evs[vi:] {
				switch {
				case ev.is(mp + "GetHeader"):
					gh = ev
					n := ev.arg(2)
					c.Check(n == oldName || !s.old && r.nameIs(n, out, suffixed), r, x, ev, s.name+": entry looked up", "the entry whose row is kept is not the one the record names")
				case ev.is(mp+"UpsertHeader", mp+"UpdateHeaderMetadata"):
					row := ev.snap(2)
					r.rowFromHeader(c, x, ev, out)
					nm := r.fieldT(row, "Name")
					if s.suff {
						c.Check(r.nameIs(nm, out, suffixed), r, x, ev, s.name+": name", "the pipeline's suffix is kept in (or wrongly cut from) the entry's name")
					} else {
						c.Check(r.nameIs(nm, out, false), r, x, ev, s.name+": name", "the name stored in the index is not the record's")
					}
					sz := strip(r.fieldT(row, "Size"))
					switch s.size {
					case "raw":
						c.Check(sz == strip(r.fieldT(out, "Size")), r, x, ev, s.name+": size", "the size stored in the index is not the record's")
					case "stored":
						w := r.E.app("mapget", strip(r.fieldT(out, "PAXRecords")), r.E.mkStr(c.paxKey(U)))
						// the number which was written, or what something not modelled read from it
						ok := sz == r.E.app("atoi", w)
						if !sz.isApp("atoi") && sz.Op != "poly" && !strings.HasPrefix(sz.Name, "narrow") && !strings.Contains(sz.String(), "strconv.") {
							ok = sz.contains(func(t *Term) bool { return t == w })
						}
						c.Check(ok, r, x, ev, s.name+": size", "the size stored in the index is not the content's original length")
					case "old":
						c.Check(gh != nil && sz == strip(r.rowFieldOf(gh, "Size")), r, x, ev, s.name+": size", "an update without content changes the size of the entry")
					}
					content, _ := r.storedPairs(ev)
					if s.size == "old" {
						c.Check(gh != nil && content[0] == strip(r.rowFieldOf(gh, "Record")) && content[1] == strip(r.rowFieldOf(gh, "Block")), r, x, ev, s.name+": content position", "an update without content changes where the entry's content is looked for")
						c.Check(gh != nil && r.at(ev, r.E.eq(gh.err(), r.E.mkNil())) == 1, r, x, ev, s.name+": entry exists", "a row is updated although looking it up failed")
					} else {
						c.Check(!strings.Contains(content[0].String(), "GetHeader"), r, x, ev, s.name+": content position", "the content position of a record with content is not the record's own")
					}
					if ev.is(mp + "UpsertHeader") {
						c.Check(ev.arg(3) == r.param(8), r, x, ev, s.name+": initializing", "the index is not told whether it is being initialised")
					}
				case ev.is(mp + "MoveHeader"):
					c.Check(ev.arg(2) == oldName, r, x, ev, s.name+": old name", "the entry that is moved is not the one the record names")
					c.Check(r.nameIs(ev.arg(3), out, false), r, x, ev, s.name+": new name", "the entry is not moved to the record's name")
				case ev.is(mp + "DeleteHeader"):
					c.Check(r.nameIs(ev.arg(2), out, false), r, x, ev, s.name+": name", "the entry that is deleted is not the one the record names")
				}
			}
			// a lookup that found nothing is fine, every other failure is not
			if gh != nil && done {
				if r.isNilOn(x, gh.err()) == 1 {
					c.Check(strings.Contains(got, "UpdateHeaderMetadata"), r, x, gh, s.name+": applied", "an update of an existing entry is dropped")
				} else {
					c.Check(r.isErr(x, gh.err(), "database/sql.ErrNoRows"), r, x, gh, s.name+": lookup error", "indexing goes on although the index could not be read")
				}
			}
		}
		for _, w := range s.want {
			if len(s.want) > 1 && w != s.want[0] {
				continue
			}
			c.Check(ok[w], r, nil, nil, s.name+": applied", "a record of this kind is never applied to the index")
		}
	}
	// unknown versions and actions are refused
	for _, s := range []struct{ k, w string }{{V, "2"}, {A, "\x01other"}} {
		val := map[string]string{s.k: s.w}
		r := c.idxScenario("unknown "+s.k, nil, val)
		if r == nil {
			return
		}
		for _, x := range r.Exits {
			evs := x.events()
			v := find(evs, func(e *Event) bool { return r.isCB(e, 11) })
			if v == nil || r.isNilOn(x, v.err()) != 1 {
				continue
			}
			c.Check(find(evs, idxMutation) == nil, r, x, v, "unknown "+s.k+" refused", "a record this version does not understand changes the index")
			c.Check(find(evs, named("io.Copy")) == nil && x.Kind == "return" && !r.mayOk(x), r, x, v, "unknown "+s.k+" refused", "a record this version does not understand is accepted")
		}
	}
}

// rowFieldOf: a field of the row a lookup returned.
func (r *Run) rowFieldOf(gh *Event, name string) *Term {
	row := strip(gh.Results[0])
	return strip(r.E.field(r.E.tt.mk("deref", "", ptrElem(row.Typ), row), name, nil))
}

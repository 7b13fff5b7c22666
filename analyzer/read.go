package main

import "strings"

const (
	fetchName  = "pkg/recovery.Fetch"
	encHeader  = "pkg/encryption.DecryptHeader"
	sigHeader  = "pkg/signature.VerifyHeader"
	decContent = "pkg/encryption.Decrypt"
	decompress = "pkg/compression.Decompress"
	verContent = "pkg/signature.Verify"
)

// readGate: the header was read, decrypted and verified (successfully and in
// that order, with the configured formats and keys) before event i; returns
// the header as verification left it.
func (r *Run) readGate(c *Ctx, x *Exit, evs []*Event, i int, what string) *Term {
	ev := evs[i]
	k, nx := lastBefore(evs, i, named(tarNext))
	d, de := lastBefore(evs, i, named(encHeader))
	v, ve := lastBefore(evs, i, named(sigHeader))
	if !c.Check(nx != nil && de != nil && ve != nil && k < d && d < v, r, x, ev, what+" after verification", "a header read from the tape is used before it was decrypted and verified") {
		return nil
	}
	raw := strip(nx.Results[0])
	c.Check(r.isNilOn(x, de.err()) == 1 && r.isNilOn(x, ve.err()) == 1, r, x, ev, what+" after verification", "a header is used although decrypting or verifying it failed")
	c.Check(de.arg(0) == raw && ve.arg(0) == raw && isOut(strip(ve.snap(0)), de, 0), r, x, ev, what+" verified header", "the header that was verified is not the one that was read and decrypted")
	c.Check(r.isCfg(de.arg(1), "PipeConfig", "Encryption") && r.isCfg(de.arg(2), "CryptoConfig", "Identity"), r, x, de, "decryption setup", "a header is decrypted with something other than the configured format and identity")
	c.Check(r.isCfg(ve.arg(1), "DriveReaderConfig", "DriveIsRegular") && r.isCfg(ve.arg(2), "PipeConfig", "Signature") && r.isCfg(ve.arg(3), "CryptoConfig", "Recipient"), r, x, ve, "verification setup", "a header is verified with something other than the configured format and recipient")
	return r.E.outOf(ve, 0, nil)
}

// fetchRun analyses Fetch for one kind of drive and one state of the header's
// signature entry: "has", "none" (other entries only) or "nil" (no entries).
func fetchRun(c *Ctx, regular bool, sig string) *Run {
	k := "fetch0" + sig
	if regular {
		k = "fetch1" + sig
	}
	return c.Run("pkg/recovery", "", "Fetch", RunOpt{Key: k, Setup: func(r *Run, st *State) {
		r.E.sinkEvents = true
		r.E.assume(st, r.E.field(r.Args[0], "DriveIsRegular", nil), regular)
	}, Observe: func(e *Engine, ev *Event, st *State) {
		if !ev.is(sigHeader) {
			return
		}
		m := e.field(e.outOf(ev, 0, nil), "PAXRecords", nil)
		has := e.app("maphas", m, e.mkStr(c.paxKey("STFSRecordSignature")))
		switch sig {
		case "has":
			e.assume(st, e.eq(m, e.mkNil()), false)
			e.assume(st, has, true)
		case "none":
			e.assume(st, e.eq(m, e.mkNil()), false)
			e.assume(st, has, false)
		case "nil":
			e.assume(st, e.eq(m, e.mkNil()), true)
			e.assume(st, has, false)
		}
	}})
}

func fetchPosition(c *Ctx) {
	for _, reg := range []bool{true, false} {
		r := fetchRun(c, reg, "")
		if r == nil {
			return
		}
		e := r.E
		rs := r.fieldT(r.recordSizeOwner(), "RecordSize")
		want := e.mul(e.mkInt(512), e.add(e.mul(rs, r.param(6)), r.param(7)))
		n := 0
		for _, x := range r.Exits {
			evs := x.events()
			for i, ev := range evs {
				if !ev.is(tarNext) {
					continue
				}
				n++
				_, nr := lastBefore(evs, i, named(tarNewRead))
				if !c.Check(nr != nil && ev.arg(0) == strip(nr.Results[0]), r, x, ev, "reader", "the header is not read with a tar reader made for this position") {
					continue
				}
				j, _ := lastBefore(evs, i, named(tarNewRead))
				p := r.headerPos(x, evs, j, nil)
				c.Check(p.ok && p.pos == want, r, x, ev, "position", "the tar reader does not start at (record size * record + block) * 512")
				_, again := lastBefore(evs, i, named(tarNext))
				c.Check(again == nil, r, x, ev, "one header", "a header other than the one at the requested position is used")
				drv := strip(r.fieldT(r.Args[0], "Drive"))
				src := nr.arg(0)
				c.Check(src == drv || src != nil && src.hasDeep(drv), r, x, nr, "drive", "something other than the drive is read")
				for _, b := range evs[:i] {
					if b.is("(io.Seeker).Seek", "(pkg/config.MagneticTapeIO).SeekToRecordOnTape", "(*bufio.Reader).Read", "io.ReadFull", "(*bufio.Reader).Discard") {
						c.Check(r.isNilOn(x, b.err()) == 1, r, x, b, "positioned", "the drive is read although positioning it failed")
					}
				}
			}
			for i, ev := range evs {
				if ev.is("(io.Seeker).Seek", "(pkg/config.MagneticTapeIO).SeekToRecordOnTape", "(pkg/config.MagneticTapeIO).GoToNextFileOnTape") {
					_, nx := lastBefore(evs, i, named(tarNext))
					c.Check(nx == nil, r, x, ev, "stays at the record", "the drive is moved away from the record that is being fetched")
				}
			}
		}
		c.Check(n > 0, r, nil, nil, "reads", "nothing is ever read")
	}
}

func fetchContent(c *Ctx) {
	for _, sc := range []string{"1has", "1none", "1nil", "0has", "0none", "0nil"} {
		r := fetchRun(c, sc[0] == '1', sc[1:])
		if r == nil {
			return
		}
		e := r.E
		full, skipped := 0, 0
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			c.Check(x.Kind == "return", r, x, nil, "panic", "fetching can crash the process")
			evs := x.events()
			var hdr *Term
			for i, ev := range evs {
				if r.isCB(ev, 4) || r.isCB(ev, 5) || r.isCB(ev, 10) || ev.is(decContent, decompress, verContent, "io.Copy") {
					if h := r.readGate(c, x, evs, i, "use"); h != nil {
						hdr = h
					}
				}
				if r.isCB(ev, 4) || r.isCB(ev, 5) || ev.is(decContent) {
					c.Check(r.fact(x, r.param(9)) == -1, r, x, ev, "preview", "a preview writes or reads content")
				}
				switch {
				case ev.is(decContent):
					_, nx := lastBefore(evs, i, named(tarNext))
					c.Check(nx != nil && ev.arg(0) == nx.arg(0), r, x, ev, "content source", "the content is not read from the entry that was asked for")
					c.Check(r.isCfg(ev.arg(1), "PipeConfig", "Encryption") && r.isCfg(ev.arg(2), "CryptoConfig", "Identity"), r, x, ev, "decryption setup", "content is decrypted with something other than the configured format and identity")
				case ev.is(decompress):
					_, d := lastBefore(evs, i, named(decContent))
					c.Check(d != nil && ev.arg(0) == strip(d.Results[0]), r, x, ev, "decompressed source", "what is decompressed is not the decrypted content")
					c.Check(r.isCfg(ev.arg(1), "PipeConfig", "Compression"), r, x, ev, "decompression setup", "content is decompressed with something other than the configured format")
				case ev.is(verContent):
					_, d := lastBefore(evs, i, named(decompress))
					c.Check(d != nil && ev.arg(0) == strip(d.Results[0]), r, x, ev, "verified source", "what is verified is not the decompressed content")
					c.Check(r.isCfg(ev.arg(1), "DriveReaderConfig", "DriveIsRegular") && r.isCfg(ev.arg(2), "PipeConfig", "Signature") && r.isCfg(ev.arg(3), "CryptoConfig", "Recipient"), r, x, ev, "verification setup", "content is verified with something other than the configured format and recipient")
					if hdr != nil {
						// the header's entry, or nothing when there is none
						m := e.field(hdr, "PAXRecords", nil)
						key := e.mkStr(c.paxKey("STFSRecordSignature"))
						s := ev.arg(4)
						ok := s != nil && s.isApp("mapget") && s.Args[0] == m && strip(s.Args[1]) == key
						if sc[1:] != "has" {
							ok = ok || s != nil && s.isStr() && s.Name == ""
						}
						c.Check(ok, r, x, ev, "signature", "the signature the content is verified against is not the one in the verified header")
					}
				}
			}
			if !r.mayOk(x) {
				continue
			}
			if find(evs, named(sigHeader)) == nil {
				c.Check(false, r, x, nil, "verified", "fetching succeeds without verifying the header")
				continue
			}
			i, ve := lastBefore(evs, len(evs), named(sigHeader))
			hdr = e.outOf(ve, 0, nil)
			c.Check(r.isNilOn(x, ve.err()) == 1, r, x, ve, "verified", "fetching succeeds although the header could not be verified")
			if r.fact(x, r.param(9)) == 1 {
				continue
			}
			mk := find(evs[i:], func(ev *Event) bool { return r.isCB(ev, 5) })
			dst := find(evs[i:], func(ev *Event) bool { return r.isCB(ev, 4) })
			dirFact := 0
			for f, v := range x.St.facts {
				if f.contains(func(s *Term) bool { _, n, _ := fieldOf(s); return n == "Typeflag" }) && f.isApp("eq") {
					for _, a := range f.Args {
						if a.isInt() && a.intVal() == 53 {
							dirFact = -1
							if v {
								dirFact = 1
							}
						}
					}
				}
			}
			if !c.Check((mk != nil) != (dst != nil) || r.fact(x, r.param(9)) == 0 && mk == nil && dst == nil, r, x, nil, "restored", "fetching succeeds without creating the entry (or creates it twice)") {
				continue
			}
			nameOK := func(ev *Event) bool {
				t := ev.arg(1)
				to := r.param(8)
				if r.eqStr(x, to, "") == 1 {
					return t.contains(func(s *Term) bool { _, n, _ := fieldOf(s); return n == "Name" })
				}
				return t.hasDeep(to)
			}
			if mk != nil {
				c.Check(dirFact == 1, r, x, mk, "directories", "an entry that is not known to be a directory is restored as one")
				c.Check(nameOK(mk), r, x, mk, "destination", "the entry is not restored to the requested place")
				c.Check(mk.err() == r.errResult(x) || r.isNilOn(x, mk.err()) == 1, r, x, mk, "directory result", "a failed directory creation is reported as success")
				continue
			}
			if dst == nil {
				continue
			}
			c.Check(dirFact != 1, r, x, dst, "directories", "a directory is restored as a file")
			c.Check(nameOK(dst), r, x, dst, "destination", "the entry is not restored to the requested place")
			f := strip(dst.Results[0])
			cl, _ := lastBefore(evs, len(evs), func(ev *Event) bool { return ev.is("(io.Closer).Close", "(io.WriteCloser).Close") && ev.arg(0) == f })
			if c.Check(cl >= 0, r, x, dst, "destination closed", "fetching succeeds without closing the destination") {
				c.Check(evs[cl].err() == r.errResult(x) || r.isNilOn(x, evs[cl].err()) == 1, r, x, evs[cl], "destination closed", "an error closing the destination is lost")
			}
			closes := 0
			for _, ev := range evs {
				if ev.is("(io.Closer).Close", "(io.WriteCloser).Close") && ev.arg(0) == f {
					closes++
					c.Check(closes < 2 || ev.err() != r.errResult(x) && r.isNilOn(x, ev.err()) != 1, r, x, ev, "destination closed once", "the destination is closed again and the error which that gives is taken for a failure")
				}
			}
			ci, cp := lastBefore(evs, len(evs), func(ev *Event) bool { return ev.is("io.Copy", "io.CopyBuffer") && ev.arg(0) == f })
			if cp == nil {
				// no content: only when the header says so
				skipped++
				size := e.field(hdr, "Size", nil)
				m := e.field(hdr, "PAXRecords", nil)
				key := e.mkStr(c.paxKey("STFSRecordSignature"))
				small := r.fact(x, e.lt(e.mkInt(0), size, true)) == -1
				unsigned := sc[1:] != "has" || r.eqStr(x, e.app("mapget", m, key), "") == 1
				c.Check(small && unsigned, r, x, dst, "content restored", "fetching succeeds without delivering the content of an entry that has some")
				continue
			}
			c.Check(ci < cl, r, x, cp, "closed last", "the destination is closed before the content was written")
			c.Check(r.isNilOn(x, cp.err()) == 1, r, x, cp, "content complete", "fetching succeeds although copying the content failed")
			_, nx := lastBefore(evs, i, named(tarNext))
			if cp.arg(1) == strip(nx.arg(0)) {
				// entries that are not regular files have no pipeline
				irregular := false
				for f, v := range x.St.facts {
					if f.isApp("(io/fs.FileMode).IsRegular") && f.hasDeep(hdr) && !v {
						irregular = true
					}
				}
				c.Check(irregular, r, x, cp, "pipeline", "the content of a regular file is delivered as it is on the tape")
				continue
			}
			full++
			_, vc := lastBefore(evs, ci, named(verContent))
			if !c.Check(vc != nil && cp.arg(1) == strip(vc.Results[0]), r, x, cp, "pipeline", "what is delivered is not the verified, decompressed and decrypted content") {
				continue
			}
			vf := strip(vc.Results[1])
			vi, vr := firstFrom(evs, ci+1, func(ev *Event) bool {
				return strings.HasPrefix(ev.Callee, "dyn") && len(ev.Args) > 0 && strip(ev.Args[0]) == vf
			})
			if c.Check(vr != nil && vi > ci, r, x, cp, "verified after reading", "fetching succeeds without checking the signature once the content was read") {
				c.Check(r.isNilOn(x, vr.err()) == 1, r, x, vr, "verification result", "fetching succeeds although the content's signature is invalid")
			}
		}
		c.Check(full > 0, r, nil, nil, "delivers content", "content is never delivered")
		c.Check(skipped > 0, r, nil, nil, "empty content", "an entry whose record carries no content cannot be fetched")
		c.errDiscipline(r, func(ev *Event, x *Exit) bool { return false })
	}
}

// ---- Query -------------------------------------------------------------------

func queryRules(c *Ctx) {
	for _, reg := range []bool{true, false} {
		k := "query0"
		if reg {
			k = "query1"
		}
		r := c.Run("pkg/recovery", "", "Query", RunOpt{Visits: 3, Key: k, Setup: func(r *Run, st *State) {
			r.E.sinkEvents = true
			r.E.assume(st, r.E.field(r.Args[0], "DriveIsRegular", nil), reg)
		}})
		if r == nil {
			return
		}
		e := r.E
		rs := strip(r.fieldT(r.recordSizeOwner(), "RecordSize"))
		start := e.mul(e.mkInt(512), e.add(e.mul(rs, r.param(4)), r.param(5)))
		n := 0
		for _, x := range r.Exits {
			c.Check(x.Kind != "panic", r, x, nil, "panic", "querying can crash the process")
			evs := x.events()
			first := true
			for i, ev := range evs {
				if ev.is(tarNewRead) {
					p := r.headerPos(x, evs, i, nil)
					if first {
						c.Check(p.ok && p.pos == start, r, x, ev, "start position", "the query does not start at the requested record and block")
					}
					first = false
					c.Check(p.ok && e.toPoly(p.pos).divisible(512), r, x, ev, "reader at block", "a tar reader is started at a position that is not known to be the start of a block")
				}
				if !r.isCB(ev, 6) {
					continue
				}
				n++
				r.readGate(c, x, evs, i, "report")
				k, _ := lastBefore(evs, i, named(tarNext))
				p := r.headerPos(x, evs, k, nil)
				h := ev.snap(1)
				rec, blk := strip(r.fieldT(h, "Record")), strip(r.fieldT(h, "Block"))
				if c.Check(p.ok && p.pos != nil && p.why == "", r, x, ev, "position known", "a record is reported whose position was not measured between the previous record and this one "+p.why) {
					c.Check(r.pairIs(rec, blk, p.pos), r, x, ev, "position", "the reported position is not where the record that was read starts")
				}
				c.Check(r.blockInRange(blk, 5), r, x, ev, "block in range", "the reported block is not smaller than the record size")
			}
		}
		c.Check(n > 0, r, nil, nil, "reports", "no record is ever reported")
	}
}

// ---- Restore -------------------------------------------------------------------

func restoreRows(c *Ctx) {
	r := c.opsRun("Restore")
	if r == nil {
		return
	}
	n, kids := 0, 0
	for _, x := range r.Exits {
		evs := x.events()
		for i, ev := range evs {
			if !ev.is(fetchName) {
				continue
			}
			n++
			_, f1, b1 := fieldOf(ev.arg(6))
			_, f2, b2 := fieldOf(ev.arg(7))
			c.Check(f1 == "Record" && f2 == "Block" && b1 == b2, r, x, ev, "position", "an entry is not fetched from its own record and block")
			c.Check(ev.arg(4) == r.param(0) && ev.arg(5) == r.param(1), r, x, ev, "callbacks", "the caller's destination callbacks are not used")
			c.Check(r.isCfg(ev.arg(2), "Operations", "pipes") || typeName(ev.Args[2].Typ) == "PipeConfig", r, x, ev, "pipeline", "an entry is fetched with another pipeline than the configured one")
			c.Check(ev.arg(9).isFalse(), r, x, ev, "content", "an entry's content is not restored")
			j, gr := lastBefore(evs, i, named(evGetReader))
			if c.Check(gr != nil, r, x, ev, "reader", "an entry is fetched without a reader") {
				c.Check(ev.arg(0) == strip(gr.Results[0]), r, x, ev, "reader", "an entry is not fetched from the drive")
				_ = j
			}
			// destination
			dst := ev.arg(8)
			row := b1
			name := func(t *Term) bool {
				return t.contains(func(s *Term) bool { _, f, b := fieldOf(s); return f == "Name" && b == row })
			}
			to := r.param(3)
			toEmpty := r.eqStr(x, to, "")
			switch {
			case toEmpty == 1:
				_, f, b := fieldOf(dst)
				c.Check(f == "Name" && b == row, r, x, ev, "destination", "without a destination an entry is not restored under its own name")
			case toEmpty == -1 && r.fact(x, r.param(4)) == 1:
				c.Check(dst == to, r, x, ev, "destination", "a flattened restore does not go to the destination")
			case toEmpty == -1:
				c.Check(dst.hasDeep(r.param(3)) && name(dst), r, x, ev, "destination", "an entry is restored to a place that does not depend on the destination and its name")
			default:
				c.Check(dst.hasDeep(r.param(3)) || name(dst), r, x, ev, "destination", "an entry is restored to a place that depends neither on the destination nor on its name")
			}
			if row != nil && row.contains(func(s *Term) bool {
				return s.Op == "res" && s.Ev.is(mp+"GetHeaderChildren")
			}) {
				kids++
			}
		}
		for i, ev := range evs {
			if ev.is(mp + "GetHeader") {
				_, again := firstFrom(evs, i+1, named(mp+"GetHeader"))
				if again != nil {
					c.Check(r.isErr(x, ev.err(), "database/sql.ErrNoRows"), r, x, again, "second spelling", "an entry that exists is looked up a second time under another name")
				}
			}
		}
		if r.mayOk(x) {
			_, gh := lastBefore(evs, len(evs), named(mp+"GetHeader"))
			if c.Check(gh != nil, r, x, nil, "entry found", "restoring succeeds without looking up the entry") {
				c.Check(r.isNilOn(x, gh.err()) == 1, r, x, gh, "entry found", "restoring succeeds although the entry does not exist")
				fe := find(evs, func(ev *Event) bool {
					if !ev.is(fetchName) {
						return false
					}
					_, _, b := fieldOf(ev.arg(6))
					return b != nil && rootOf(b) == strip(gh.Results[0])
				})
				c.Check(fe != nil, r, x, gh, "entry restored", "restoring succeeds without fetching the entry")
			}
		}
	}
	c.Check(n > 0 && kids > 0, r, nil, nil, "restores", "entries or the children of directories are never restored")
}

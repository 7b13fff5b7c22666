package main

import (
	"go/types"
	"strings"
)

// ---- helpers -----------------------------------------------------------

// opsAll analyses every exported method of Operations that touches the drive.
func (c *Ctx) opsAll() []*Run {
	var out []*Run
	for _, fn := range c.P.Methods("pkg/operations", "Operations") {
		if !fn.Object().Exported() || strings.HasPrefix(fn.Name(), "Get") {
			continue
		}
		out = append(out, c.RunFn(fn, RunOpt{Visits: 2, Key: "ops2", MaxItems: 3000000}))
	}
	if len(out) < 6 {
		c.Fail("pkg/operations", "anchor", "?", "fewer exported operations than the archive interface has", nil)
	}
	return out
}

// hwrite is one header that reaches the tape: the write, the calls that wrapped
// it and the header as the operation meant it (before signing and encrypting).
type hwrite struct {
	i, next         int // event index of the write and of the next write (or the end)
	ev, enc, sign   *Event
	logical, writer *Term
}

func (r *Run) writes(x *Exit) []hwrite {
	evs := x.events()
	var out []hwrite
	for i, ev := range evs {
		if !ev.is(tarWriteHeader) {
			continue
		}
		w := hwrite{i: i, next: len(evs), ev: ev, writer: ev.arg(0)}
		_, w.enc = lastBefore(evs, i, named("pkg/encryption.EncryptHeader"))
		if w.enc != nil {
			_, w.sign = lastBefore(evs, i, named("pkg/signature.SignHeader"))
		}
		if w.sign != nil {
			w.logical = w.sign.snap(0)
		}
		if n := len(out); n > 0 {
			out[n-1].next = i
		}
		out = append(out, w)
	}
	return out
}

func (r *Run) fieldT(v *Term, name string) *Term { return r.E.field(v, name, nil) }

// driveIsRegular is the flag of the writer the operation got.
func (r *Run) driveIsRegular(evs []*Event) *Term {
	if g := find(evs, named(evGetWriter)); g != nil {
		return r.fieldT(g.Results[0], "DriveIsRegular")
	}
	if g := find(evs, named(evGetReader)); g != nil {
		return r.fieldT(g.Results[0], "DriveIsRegular")
	}
	return nil
}

// evPos maps a trace id to the number of events that had happened then.
func evPos(x *Exit) map[int]int {
	m := map[int]int{0: 0}
	for t := x.St.trace; t != nil; t = t.Prev {
		m[t.id] = t.N
	}
	return m
}

func isMutexOp(n, op string) bool {
	return strings.HasPrefix(n, "(*sync.") && strings.HasSuffix(n, "."+op)
}

// ---- the drive is always given back, exactly once, under the lock -------

func opsBracket(c *Ctx) {
	for _, r := range c.opsAll() {
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			c.Check(x.Kind != "panic", r, x, nil, "panic", "the operation can panic")
			var writer, reader *Event
			closed := true
			for _, ev := range x.events() {
				switch {
				case ev.is(evGetWriter):
					c.Check(writer == nil && reader == nil, r, x, ev, "GetWriter while open", "the drive is requested while this operation still holds it")
					if r.isNilOn(x, ev.err()) != -1 {
						writer, closed = ev, false
					}
				case ev.is(evCloseWriter):
					c.Check(writer != nil, r, x, ev, "CloseWriter", "the writer is closed although this operation does not hold it (a second close or a close after a failed open)")
					writer, closed = nil, true
				case ev.is(evGetReader):
					c.Check(writer == nil && reader == nil, r, x, ev, "GetReader while open", "the drive is requested while this operation still holds it")
					if r.isNilOn(x, ev.err()) != -1 {
						reader = ev
					}
				case ev.is(evCloseReader):
					c.Check(reader != nil, r, x, ev, "CloseReader", "the reader is closed although this operation does not hold it")
					reader = nil
				case ev.is(tarWriteHeader, "(*archive/tar.Writer).Close", "(*archive/tar.Writer).Flush", "(*bufio.Writer).Flush", "(*bufio.Writer).Write"):
					c.Check(!closed, r, x, ev, "write after close", "the tape is written to after the writer has been closed")
				case ev.is("pkg/recovery.Index", "pkg/recovery.Fetch", "pkg/recovery.Query"):
					c.Check(reader != nil && strip(ev.arg(0)) == strip(reader.Results[0]), r, x, ev, "open reader", "the tape is read without an open reader of this operation")
				}
			}
			c.Check(writer == nil, r, x, nil, "drive freed (writer)", "the operation returns without closing the writer it opened, so the drive stays locked")
			c.Check(reader == nil, r, x, nil, "drive freed (reader)", "the operation returns without closing the reader it opened, so the drive stays locked")
		}
	}
}

// locks: every mutex is released on every exit, never taken twice.
func lockBalance(c *Ctx, r *Run) {
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		held := map[*Term]*Event{}
		for _, ev := range x.events() {
			a := ev.arg(0)
			switch {
			case isMutexOp(ev.Callee, "Lock") || isMutexOp(ev.Callee, "RLock"):
				c.Check(held[a] == nil, r, x, ev, "lock taken twice", "the same mutex is locked again while it is held: the call never returns")
				held[a] = ev
			case isMutexOp(ev.Callee, "Unlock") || isMutexOp(ev.Callee, "RUnlock"):
				c.Check(held[a] != nil, r, x, ev, "unlock", "a mutex is unlocked that is not held")
				delete(held, a)
			}
		}
		for a, ev := range held {
			c.Check(false, r, x, ev, "lock "+lockName(a), "the mutex is still held when the call returns")
		}
		c.Ob(r.Name, "locks released")
	}
}

func lockName(a *Term) string {
	if a != nil && a.Op == "fldaddr" {
		return typeName(a.Args[0].Typ) + "." + a.Name
	}
	return a.String()
}

func opsLocks(c *Ctx) {
	for _, r := range c.opsAll() {
		lockBalance(c, r)
		for _, x := range r.Exits {
			held := 0
			for _, ev := range x.events() {
				switch {
				case isMutexOp(ev.Callee, "Lock") && rootOf(ev.arg(0)) == strip(r.Args[0]):
					held++
				case isMutexOp(ev.Callee, "Unlock") && rootOf(ev.arg(0)) == strip(r.Args[0]):
					held--
				case strings.HasPrefix(ev.Callee, "dyn:BackendConfig.") || strings.HasPrefix(ev.Callee, mp) || ev.is(tarWriteHeader, "pkg/recovery.Index", "pkg/recovery.Fetch"):
					c.Check(held > 0, r, x, ev, "under the disk lock", "the drive or the index is used without holding the operations' lock, so two calls can interleave on the tape")
				}
			}
		}
	}
}

// ---- trailer ------------------------------------------------------------

func (r *Run) usesWriter(ev *Event, tw *Term) bool {
	for i, a := range ev.Args {
		if a.hasDeep(tw) || i < len(ev.Snap) && ev.Snap[i] != nil && ev.Snap[i].has(tw) {
			return true
		}
	}
	return false
}

func opsTrailer(c *Ctx) {
	rs := c.opsWriters()
	for _, r := range rs {
		some := false
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			evs := x.events()
			ws := r.writes(x)
			if len(ws) == 0 {
				for _, ev := range evs {
					c.Check(!ev.is("(*archive/tar.Writer).Close", "(*archive/tar.Writer).Flush", "(*bufio.Writer).Write", "(*bufio.Writer).Flush"), r, x, ev, "nothing appended", "something is written to the tape although no header was written")
				}
				continue
			}
			if !r.mayOk(x) {
				continue
			}
			some = true
			tw := ws[0].writer
			closeAt, cw := -1, -1
			var tclose *Event
			last := 0
			for i, ev := range evs {
				switch {
				case ev.is("(*archive/tar.Writer).Close") && ev.arg(0) == tw:
					c.Check(closeAt < 0, r, x, ev, "one trailer", "the archive trailer is written twice")
					closeAt, tclose = i, ev
				case ev.is(evCloseWriter):
					cw = i
				case ev.is(tarWriteHeader, "io.Copy", "(io.Closer).Close", "(internal/ioext.FlusherWriter).Flush") && r.usesWriter(ev, tw):
					last = i
				}
			}
			if !c.Check(closeAt >= 0, r, x, ws[0].ev, "trailer written", "headers were written but the archive is never terminated (tar.Writer.Close), so the tape is not a sequence of well-formed archives") {
				continue
			}
			c.Check(closeAt > last, r, x, tclose, "trailer last", "the archive trailer is written before the last header or content")
			c.Check(r.isNilOn(x, tclose.err()) == 1, r, x, tclose, "trailer error", "success although the trailer could not be written")
			c.Check(cw > closeAt, r, x, tclose, "trailer before close", "the writer is closed before the trailer is written")
			for i, ev := range evs {
				if !ev.is("bufio.NewWriterSize", "bufio.NewWriter") {
					continue
				}
				fi, fl := -1, (*Event)(nil)
				for j := i; j < len(evs); j++ {
					if evs[j].is("(*bufio.Writer).Flush") && evs[j].arg(0) == ev.Results[0] {
						fi, fl = j, evs[j]
					}
				}
				c.Check(fi > closeAt && fi < cw, r, x, fl, "buffer flushed", "the buffered end of the archive is not flushed to the drive after the trailer and before the writer is closed")
				if fl != nil {
					c.Check(r.isNilOn(x, fl.err()) == 1, r, x, fl, "flush error", "success although the last bytes could not be written")
				}
				// on a drive, a short archive is padded to one record
				pad := find(evs[closeAt:], func(e *Event) bool {
					return e.is("(*bufio.Writer).Write") && e.arg(0) == ev.Results[0]
				})
				short := false
				for f := range x.St.facts {
					f.contains(func(t *Term) bool {
						if !t.isApp("counter") {
							return false
						}
						if pad == nil && r.fact(x, r.E.lt(t, ev.arg(1), true)) == -1 {
							short = true
						}
						if pad != nil && r.E.add(r.E.length(pad.arg(1)), t) == ev.arg(1) {
							short = true
						}
						return false
					})
				}
				if pad != nil {
					c.Check(short, r, x, pad, "filling length", "what is appended to the archive does not fill it up to one record")
					c.Check(pad.arg(1).contains(func(t *Term) bool { return t.isApp("makeslice") }), r, x, pad, "filled with zeros", "a short record is filled with something other than zeros")
				} else {
					c.Check(short, r, x, tclose, "record filled", "the last record of a drive is not filled with zeros although nothing shows that a whole record was written")
				}
			}
		}
		c.Check(some, r, nil, nil, "successful write", "the operation never succeeds after writing a header")
	}
}

// ---- what may reach the drive --------------------------------------------

func opsWriterFlow(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			g := find(evs, named(evGetWriter))
			if g == nil {
				continue
			}
			drive := r.fieldT(g.Results[0], "Drive")
			flag := r.fieldT(g.Results[0], "DriveIsRegular")
			for _, ev := range evs {
				for i, a := range ev.Args {
					if a == flag || !(a.has(g.Results[0])) {
						continue
					}
					if a.isApp("not") && a.Args[0] == flag {
						continue
					}
					ok := ev.is("bufio.NewWriterSize", "bufio.NewWriter", tarNewWriter) && i == 0 && strip(a) == drive
					c.Check(ok, r, x, ev, "drive used by "+ev.Callee, "the write drive is used by something other than the tar stream, so bytes that are no tar records can reach the tape")
				}
			}
			c.Ob(r.Name, "drive flow")
			// no other way to write: nothing but the tar writer's chain gets the drive
			for _, ev := range evs {
				if ev.is("(*archive/tar.Writer).Write") {
					c.Check(false, r, x, ev, "raw write", "raw bytes are written into the archive outside of the pipeline")
				}
			}
		}
	}
}

// ---- indexing what was written --------------------------------------------

func opsIndexCall(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			ws := r.writes(x)
			idx := find(evs, named("pkg/recovery.Index"))
			if x.Kind == "return" && len(ws) > 0 && r.mayOk(x) {
				c.Check(idx != nil, r, x, ws[len(ws)-1].ev, "written headers indexed", "headers were written to the tape but the call succeeds without indexing them")
			}
			if idx == nil {
				continue
			}
			c.Check(count(evs, named("pkg/recovery.Index")) == 1, r, x, idx, "indexed once", "the new records are indexed more than once")
			gr := find(evs, named(evGetReader))
			c.Check(gr != nil && strip(idx.arg(0)) == strip(gr.Results[0]), r, x, idx, "reader", "the index is not built from the reader that was opened")
			c.Check(r.isCfg(idx.arg(1), "BackendConfig", "MagneticTapeIO"), r, x, idx, "tape io", "Index does not get the configured tape interface")
			for i, tp := range []string{"pkg/config.MetadataConfig", "pkg/config.PipeConfig", "pkg/config.CryptoConfig"} {
				a := idx.arg(2 + i)
				c.Check(typePath(a.Typ) == tp && rootOf(a) == strip(r.Args[0]), r, x, idx, tp, "Index does not get the operations' own "+tp)
			}
			over, init := idx.arg(7), idx.arg(8)
			glast := find(evs, named(mp+"GetLastIndexedRecordAndBlock"))
			wantOver, wantInit := r.E.mkBool(false), r.E.mkBool(false)
			switch r.Fn.Name() {
			case "Archive":
				wantOver, wantInit = r.param(2), r.param(3)
			case "Initialize":
				wantOver, wantInit = r.E.mkBool(true), r.E.mkBool(true)
			}
			same := func(a, b *Term) bool {
				if a == b {
					return true
				}
				ka, kb := r.at(idx, a), r.at(idx, b)
				return ka != 0 && ka == kb
			}
			c.Check(same(over, wantOver), r, x, idx, "overwrite flag", "Index is told to purge the index (or not to) differently from what the caller asked for")
			c.Check(same(init, wantInit), r, x, idx, "initializing flag", "Index gets a different initializing flag than the caller asked for")
			switch r.at(idx, over) {
			case 1:
				ok := idx.arg(5).isInt() && idx.arg(5).intVal() == 0 && idx.arg(6).isInt() && idx.arg(6).intVal() == 0 && idx.arg(9).isInt() && idx.arg(9).intVal() == 0
				c.Check(ok, r, x, idx, "position (overwrite)", "a fresh tape must be indexed from record 0, block 0 without skipping a header")
			case -1:
				if !c.Check(glast != nil, r, x, idx, "last indexed position", "the position to continue indexing from is not read from the index") {
					break
				}
				fresh := strip(idx.arg(5)) == strip(glast.Results[0]) && strip(idx.arg(6)) == strip(glast.Results[1])
				c.Check(fresh, r, x, idx, "position", "indexing does not continue at the last indexed record and block")
				c.Check(r.isCfg(glast.arg(2), "PipeConfig", "RecordSize"), r, x, glast, "record size", "the last indexed position is not computed with the configured record size")
				c.Check(r.at(idx, r.E.eq(glast.err(), r.E.mkNil())) == 1, r, x, idx, "position error", "the last indexed position is used although it could not be read")
				c.Check(idx.arg(9).isInt() && idx.arg(9).intVal() == 1, r, x, idx, "offset", "exactly one header (the one already indexed) has to be skipped when continuing")
				gi := -1
				for i, ev := range evs {
					if ev == glast || ev.key == glast.key {
						gi = i
						break
					}
				}
				for _, w := range ws {
					c.Check(gi < w.i, r, x, glast, "position read first", "the last indexed position is read after new records were written")
				}
			default:
				c.Check(false, r, x, idx, "overwrite known", "whether the index is purged is not tied to where indexing starts")
			}
		}
	}
}

// callbacks: the indexer must see exactly the headers that were written.
func opsCallbacks(c *Ctx) {
	for _, r := range c.opsWriters() {
		some := false
		for _, x := range r.okExits() {
			evs := x.events()
			ws := r.writes(x)
			idx := find(evs, named("pkg/recovery.Index"))
			if idx == nil || len(ws) == 0 {
				continue
			}
			some = true
			cl, ok := r.funcOf(idx.arg(10))
			if !c.Check(ok && idx.St != nil, r, x, idx, "decrypt callback", "the header callback of Index is not a function of this operation") {
				continue
			}
			for i := 0; i <= len(ws); i++ {
				st := idx.St.clone()
				hp := r.E.tt.mk("sym", "hdr!cb", types.NewPointer(tarHeaderType(cl)))
				res := r.E.runFunc(st, cl.Fn, []*Term{hp, r.E.mkInt(int64(i))}, cl.Args, nil, idx.Pos)
				for _, cx := range res {
					if cx.Kind == "cut" {
						continue
					}
					if !c.Check(cx.Kind == "return" && len(cx.Results) == 1, r, x, idx, "callback returns", "the header callback can panic") {
						continue
					}
					isNil := r.E.known(cx.St, r.E.eq(cx.Results[0], r.E.mkNil()))
					if i == len(ws) {
						c.Check(isNil == -1, r, x, idx, "unknown record", "a record that this operation did not write is accepted while indexing")
						continue
					}
					c.Check(isNil == 1, r, x, idx, "own record accepted", "a record this operation wrote is rejected while indexing")
					got := r.E.snapshot(cx.St, hp, ptrElem(hp.Typ))
					c.Check(sameHeader(r, got, ws[i].logical), r, x, idx, "header "+itoa(i), "the header that gets indexed is not the one that was written\n    indexed: "+trunc(got)+"\n    written: "+trunc(ws[i].logical))
				}
			}
		}
		c.Check(some, r, nil, nil, "indexed write", "no successful path indexes a written header")
	}
}

func itoa(i int) string { return string(rune('0' + i)) }

func trunc(t *Term) string {
	s := t.String()
	if len(s) > 900 {
		s = s[:900] + "…"
	}
	return s
}

// sameHeader compares two header values field by field.
func sameHeader(r *Run, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	t := b.Typ
	if t == nil {
		t = a.Typ
	}
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if r.E.field(a, n, s.Field(i).Type()) != r.E.field(b, n, s.Field(i).Type()) {
			return false
		}
	}
	return true
}

func (r *Run) funcOf(t *Term) (*Term, bool) {
	t = strip(t)
	if t == nil {
		return nil, false
	}
	return t, (t.Op == "closure" || t.Op == "func") && t.Fn != nil
}

func tarHeaderType(cl *Term) types.Type {
	for _, p := range cl.Fn.Params {
		if strings.HasSuffix(p.Type().String(), "archive/tar.Header") {
			return ptrElem(p.Type())
		}
	}
	return nil
}

// ---- signing before encrypting ---------------------------------------------

func opsSign(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			for _, w := range r.writes(x) {
				if !c.Check(w.enc != nil && w.sign != nil && isOut(w.ev.snap(1), w.enc, 0) && isOut(w.enc.snap(0), w.sign, 0), r, x, w.ev, "signed, then encrypted", "the header written to the tape is not the encrypted form of the signed header") {
					continue
				}
				c.Check(w.sign.arg(1) == strip(r.driveIsRegular(evs)), r, x, w.sign, "drive kind", "SignHeader does not get the drive's kind")
				c.Check(r.isCfg(w.sign.arg(2), "PipeConfig", "Signature"), r, x, w.sign, "signature format", "SignHeader is not called with the configured signature format")
				c.Check(r.isCfg(w.sign.arg(3), "CryptoConfig", "Identity"), r, x, w.sign, "signing identity", "SignHeader is not called with the configured identity")
				c.Check(r.at(w.ev, r.E.eq(w.sign.err(), r.E.mkNil())) == 1, r, x, w.ev, "SignHeader error", "the header is written although it could not be signed")
			}
		}
	}
}

// ---- header content ----------------------------------------------------------

// content describes the pipeline of one member.
type pass struct {
	enc, comp, copy, flush, closeC, closeE int // event indexes, -1 if missing
}

func (r *Run) passTo(evs []*Event, lo, hi int, dst func(*Term) bool) *pass {
	for i := lo; i < hi; i++ {
		if !evs[i].is("pkg/encryption.Encrypt") || !dst(evs[i].arg(0)) {
			continue
		}
		p := &pass{enc: i, comp: -1, copy: -1, flush: -1, closeC: -1, closeE: -1}
		for j := i + 1; j < hi; j++ {
			ev := evs[j]
			switch {
			case ev.is("pkg/compression.Compress") && ev.arg(0) == strip(evs[i].Results[0]):
				p.comp = j
			case p.comp >= 0 && ev.is("io.Copy") && ev.arg(0) == strip(evs[p.comp].Results[0]):
				p.copy = j
			case p.comp >= 0 && strings.HasSuffix(ev.Callee, ".Flush") && ev.arg(0) == strip(evs[p.comp].Results[0]):
				p.flush = j
			case p.comp >= 0 && strings.HasSuffix(ev.Callee, ".Close") && ev.arg(0) == strip(evs[p.comp].Results[0]):
				p.closeC = j
			case strings.HasSuffix(ev.Callee, ".Close") && ev.arg(0) == strip(evs[i].Results[0]):
				p.closeE = j
			}
		}
		return p
	}
	return nil
}

func (p *pass) complete() bool {
	return p != nil && p.comp > p.enc && p.copy > p.comp && p.flush > p.copy && p.closeC > p.flush && p.closeE > p.closeC
}

func isCounterAddr(t *Term) bool { t = strip(t); return t != nil && t.Op == "alloc" }

// srcOf finds the FileInfoHeader call a logical header starts from.
func (r *Run) srcOf(evs []*Event, w hwrite) *Event {
	b := strip(w.logical)
	for b != nil && b.Op == "with" {
		b = strip(b.Args[0])
	}
	if b == nil || b.Op != "deref" || !resOf(b.Args[0], 0, "archive/tar.FileInfoHeader") {
		return nil
	}
	return b.Args[0].Ev
}

// opsHeaders: headers made from files (Archive, Update, Initialize).
func opsHeaders(c *Ctx) {
	rec := func(n string) string { return c.constStr("internal/records", n) }
	kSize, kSig := rec("STFSRecordUncompressedSize"), rec("STFSRecordSignature")
	kVer, vVer := rec("STFSRecordVersion"), rec("STFSRecordVersion1")
	kAct, vUpd, vCre := rec("STFSRecordAction"), rec("STFSRecordActionUpdate"), rec("STFSRecordActionCreate")
	kRep, vTrue, vFalse := rec("STFSRecordReplacesContent"), rec("STFSRecordReplacesContentTrue"), rec("STFSRecordReplacesContentFalse")
	pax := int64(4) // tar.FormatPAX
	n := 0
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			var pos map[int]int
			for _, w := range r.writes(x) {
				if w.logical == nil {
					continue
				}
				fih := r.srcOf(evs, w)
				if fih == nil {
					continue
				}
				n++
				info := fih.arg(0)
				L := func(f string) *Term { return strip(r.fieldT(w.logical, f)) }
				orig := r.E.tt.mk("deref", "", nil, fih.Results[0])
				if pos == nil {
					pos = evPos(x)
				}
				// where the file comes from
				src := (*Event)(nil)
				var path, link *Term
				if info.Op == "fld" && info.Name == "Info" {
					base := strip(info.Args[0])
					path, link = r.fieldT(base, "Path"), r.fieldT(base, "Link")
					if base.Op == "res" {
						src = base.Ev
					}
				}
				_ = src
				suffixed := resOf(L("Name"), 0, "internal/suffix.AddSuffix")
				name := L("Name")
				if suffixed {
					as := name.Ev
					ok := r.isCfg(as.arg(1), "PipeConfig", "Compression") && r.isCfg(as.arg(2), "PipeConfig", "Encryption") && r.at(w.ev, r.E.eq(as.err(), r.E.mkNil())) == 1
					c.Check(ok, r, x, as, "suffix", "the suffix of a record's name is not that of the configured compression and encryption")
					name = as.arg(0)
				}
				if path != nil {
					c.Check(name == strip(path), r, x, w.ev, "name", "the record is not written under the path the caller gave: "+name.String())
					c.Check(fih.arg(1) == strip(link), r, x, fih, "link target", "the record's link target is not the one the caller gave")
				} else if r.Fn.Name() == "Initialize" {
					c.Check(name == r.param(0), r, x, w.ev, "name", "the root record is not written under the given name: "+name.String())
				}
				c.Check(L("Format").isInt() && L("Format").intVal() == pax, r, x, w.ev, "format", "the record is not written in PAX format, so sub-second times, long names and STFS metadata do not survive: "+L("Format").String())
				for _, f := range []string{"Typeflag", "Linkname", "Mode", "Uid", "Gid", "Uname", "Gname", "ModTime", "AccessTime", "ChangeTime", "Devmajor", "Devminor"} {
					c.Check(L(f) == strip(r.fieldT(orig, f)), r, x, w.ev, "field "+f, "the record's "+f+" is not that of the given file: "+L(f).String())
				}
				// STFS metadata
				pr := L("PAXRecords")
				kv := map[string]*Term{}
				if ks, vs, _ := mapPairs(pr); ks != nil {
					for i, k := range ks {
						kv[k] = strip(vs[i])
					}
				}
				upd := r.Fn.Name() == "Update"
				is := func(k, v string) bool { return kv[k] != nil && kv[k].isStr() && kv[k].Name == v }
				replace := 1
				if upd {
					c.Check(is(kVer, vVer), r, x, w.ev, "version", "an update record does not carry the current record version")
					c.Check(is(kAct, vUpd), r, x, w.ev, "action", "an update record does not carry the update action")
					replace = r.at(w.ev, r.param(2))
					c.Check(replace == 1 && is(kRep, vTrue) || replace == -1 && is(kRep, vFalse), r, x, w.ev, "replaces content", "an update record does not say correctly whether it replaces the content")
				} else {
					c.Check(kv[kAct] == nil || is(kAct, vCre), r, x, w.ev, "action", "a newly archived file's record carries another action than create")
					c.Check(kv[kRep] == nil, r, x, w.ev, "replaces content", "a newly archived file's record carries a content replacement")
				}
				// size
				size := L("Size")
				p2 := r.passTo(evs, w.i, w.next, func(t *Term) bool { return t == w.writer })
				finished := w.next < len(evs) || r.mayOk(x)
				if size.isApp("counter") || suffixed || kv[kSize] != nil {
					ok := c.Check(size.isApp("counter") && suffixed && kv[kSize] != nil, r, x, w.ev, "pipelined record", "a record with content must carry its pipelined length as size, its original length and the pipeline's suffix; one of them is missing: "+trunc(w.logical))
					if !ok {
						continue
					}
					c.Check(kv[kSize].isApp("itoa") && strip(kv[kSize].Args[0]) == strip(r.fieldT(orig, "Size")), r, x, w.ev, "original size", "the original size recorded is not the size of the given file: "+kv[kSize].String())
					ca := size.Args[0].Args[0]
					lo := 0
					if j, _ := lastBefore(evs, w.i, named(tarWriteHeader)); j >= 0 {
						lo = j
					}
					p1 := r.passTo(evs, lo, w.i, func(t *Term) bool { return t == ca })
					if !c.Check(p1.complete(), r, x, w.ev, "measuring pass", "the record's size is not measured by writing the content through encryption and compression into the counter, in the right order") {
						continue
					}
					at, known := pos[int(size.Args[1].intVal())]
					c.Check(known && at > p1.closeE, r, x, w.ev, "size measured at the end", "the size is read before the compressor and encryptor were closed, so it misses buffered bytes")
					// pass 1 reads the signer over the file
					sg := strip(evs[p1.copy].arg(1))
					var file *Term
					if c.Check(resOf(sg, 0, "pkg/signature.Sign"), r, x, evs[p1.copy], "signed content", "the content measured is not the content that is signed") {
						s := sg.Ev
						file = s.arg(0)
						okS := s.arg(1) == strip(r.driveIsRegular(evs)) && r.isCfg(s.arg(2), "PipeConfig", "Signature") && r.isCfg(s.arg(3), "CryptoConfig", "Identity")
						c.Check(okS, r, x, s, "content signature", "the content is not signed with the configured format and identity")
						// signature value
						var done *Event
						di := -1
						for j := p1.copy + 1; j < w.i; j++ {
							if evs[j].Callee == "dyn" && evs[j].arg(0) == strip(s.Results[1]) {
								done, di = evs[j], j
							}
						}
						c.Check(done != nil && di > p1.copy, r, x, s, "signature computed", "the content's signature is not computed after the content was read")
						if done != nil {
							if kv[kSig] == nil {
								c.Check(r.at(w.ev, r.E.eq(done.Results[0], r.E.mkStr(""))) == 1, r, x, w.ev, "signature recorded", "the content's signature is not recorded although there is one")
							} else {
								c.Check(kv[kSig] == strip(done.Results[0]), r, x, w.ev, "signature recorded", "what is recorded as the signature is not the content's signature")
							}
						}
					}
					// pass 2
					if p2 != nil && finished {
						if c.Check(p2.complete(), r, x, w.ev, "content pass", "the content is not written through encryption and compression into the archive, flushed and closed in the right order") {
							same := sameTail(evs[p1.enc], evs[p2.enc]) && sameTail(evs[p1.comp], evs[p2.comp])
							c.Check(same, r, x, evs[p2.comp], "same pipeline", "the content is written with a different pipeline than the one its size was measured with")
							f2 := strip(evs[p2.copy].arg(1))
							c.Check(f2 == file, r, x, evs[p2.copy], "same content", "the content written is not the content that was measured and signed")
							seek := find(evs[p1.copy:p2.copy], func(e *Event) bool {
								return strings.HasSuffix(e.Callee, ".Seek") && e.arg(0) == file && e.arg(1).isInt() && e.arg(1).intVal() == 0 && e.arg(2).isInt() && e.arg(2).intVal() == 0
							})
							c.Check(seek != nil, r, x, evs[p2.copy], "rewound", "the content is not rewound to its start between measuring and writing")
						}
					}
					if len(evs[p1.comp].Args) >= 5 {
						cm := evs[p1.comp]
						ok := r.isCfg(cm.arg(1), "PipeConfig", "Compression") && cm.arg(3) == strip(r.driveIsRegular(evs)) && r.isCfg(cm.arg(4), "PipeConfig", "RecordSize")
						if r.Fn.Name() == "Archive" || upd {
							ok = ok && cm.arg(2) == r.param(1)
						}
						c.Check(ok, r, x, cm, "compression", "the content is not compressed with the configured format, the given level, the drive's kind and the record size")
					}
					c.Check(replace == 1, r, x, w.ev, "content replaced", "content is written by a metadata-only update")
				} else {
					if replace == -1 {
						c.Check(size.isInt() && size.intVal() == 0, r, x, w.ev, "metadata-only size", "a metadata-only update announces content that is not written: size "+size.String())
					}
				}
			}
		}
	}
	c.Check(n > 0, nil, nil, nil, "file headers", "no header made from a file reaches the tape")
}

// sameTail: same arguments except the destination.
func sameTail(a, b *Event) bool {
	if len(a.Args) != len(b.Args) {
		return false
	}
	for i := 1; i < len(a.Args); i++ {
		if a.arg(i) != b.arg(i) {
			return false
		}
	}
	return true
}

// opsContent: under each assumption about the file, the header does or does
// not announce content.
func opsContent(c *Ctx) {
	type sc struct {
		name             string
		regular, nonZero bool
		replace, skip    int // Update only: -1 false, 1 true
		content          int
	}
	scs := map[string][]sc{
		"Archive": {
			{"regular file with content", true, true, 0, 0, 1},
			{"empty regular file", true, false, 0, 0, 0},
			{"directory or special file", false, true, 0, 0, -1},
		},
		"Update": {
			{"regular file with content replaced", true, true, 1, -1, 1},
			{"regular file with content replaced, size unknown", true, true, 1, 1, 1},
			{"possibly empty file replaced, size unknown", true, false, 1, 1, 1},
			{"metadata of a regular file", true, true, -1, -1, -1},
			{"directory or special file", false, true, 1, -1, -1},
		},
	}
	for _, op := range []string{"Archive", "Update"} {
		for _, s := range scs[op] {
			s := s
			r := c.Run("pkg/operations", "Operations", op, RunOpt{Visits: 1, MaxItems: 3000000,
				Setup: func(r *Run, st *State) {
					if s.replace != 0 {
						r.E.assume(st, r.param(2), s.replace > 0)
						r.E.assume(st, r.param(3), s.skip > 0)
					}
				},
				Observe: func(e *Engine, ev *Event, st *State) {
					if len(ev.Results) == 0 || typePath(ev.Results[0].Typ) != "pkg/config.FileConfig" {
						return
					}
					info := e.field(ev.Results[0], "Info", nil)
					e.assume(st, e.app("(io/fs.FileMode).IsRegular", e.app("(io/fs.FileInfo).Mode", info)), s.regular)
					if !s.regular {
						return
					}
					sz := e.app("(io/fs.FileInfo).Size", info)
					if s.nonZero {
						e.assume(st, e.lt(e.mkInt(0), sz, true), true)
					} else {
						e.assume(st, e.eq(sz, e.mkInt(0)), true)
					}
				}})
			if r == nil {
				continue
			}
			n := 0
			for _, x := range r.Exits {
				evs := x.events()
				for _, w := range r.writes(x) {
					if w.logical == nil || r.srcOf(evs, w) == nil {
						continue
					}
					n++
					p2 := r.passTo(evs, w.i, w.next, func(t *Term) bool { return t == w.writer })
					has := strip(r.fieldT(w.logical, "Size")).isApp("counter")
					if p2 != nil || w.next < len(evs) || r.mayOk(x) {
						c.Check(has == (p2 != nil), r, x, w.ev, "announced = written", "for a "+s.name+", the header announces content and none is written after it, or the other way round")
					}
					switch s.content {
					case 1:
						c.Check(has, r, x, w.ev, s.name, "the record of a "+s.name+" does not announce its content")
					case -1:
						c.Check(!has, r, x, w.ev, s.name, "the record of a "+s.name+" announces content")
					default:
						c.Ob(r.Name, s.name)
					}
				}
			}
			c.Check(n > 0, r, nil, nil, s.name+" reached", "no header is written for a "+s.name)
		}
	}
}

// ---- records made from index rows (Delete, Move) -----------------------------

func opsRows(c *Ctx) {
	rec := func(n string) string { return c.constStr("internal/records", n) }
	kVer, vVer := rec("STFSRecordVersion"), rec("STFSRecordVersion1")
	kAct, vUpd, vDel := rec("STFSRecordAction"), rec("STFSRecordActionUpdate"), rec("STFSRecordActionDelete")
	kRep, kName := rec("STFSRecordReplacesContent"), rec("STFSRecordReplacesName")
	for i, op := range []string{"Delete", "Delete", "Move", "Move"} {
		dir := i%2 == 0
		r := c.Run("pkg/operations", "Operations", op, RunOpt{Visits: 2, MaxItems: 3000000, Observe: func(e *Engine, ev *Event, st *State) {
			if ev.is(mp+"GetHeader", mp+"GetHeaderByLinkname") {
				row := strip(ev.Results[0])
				e.assume(st, e.eq(e.load(st, e.tt.mk("fldaddr", "Typeflag", nil, row), nil), e.mkInt('5')), dir)
				if dir {
					e.assume(st, e.eq(e.load(st, e.tt.mk("fldaddr", "Linkname", nil, row), nil), e.mkStr("")), true)
				}
			}
		}})
		if r == nil {
			continue
		}
		some := 0
		for _, x := range r.Exits {
			evs := x.events()
			ws := r.writes(x)
			if len(ws) == 0 || x.Kind == "cut" {
				continue
			}
			row := r.mainRow(x)
			if !c.Check(row != nil, r, x, ws[0].ev, "entry looked up", "records are written without a successful lookup of the named entry") {
				continue
			}
			rowName := strip(r.E.load(x.St, r.E.tt.mk("fldaddr", "Name", nil, row), nil))
			kids := find(evs, named(mp+"GetHeaderChildren"))
			srcs := map[*Term]bool{}
			for _, w := range ws {
				if w.logical == nil {
					continue
				}
				some++
				L := func(f string) *Term { return strip(r.fieldT(w.logical, f)) }
				kv := map[string]*Term{}
				ks, vs, _ := mapPairs(L("PAXRecords"))
				for i, k := range ks {
					kv[k] = strip(vs[i])
				}
				is := func(k, v string) bool { return kv[k] != nil && kv[k].isStr() && kv[k].Name == v }
				c.Check(is(kVer, vVer), r, x, w.ev, "version", "the record does not carry the current record version")
				var own *Term // the row's name this record is about
				if op == "Delete" {
					c.Check(is(kAct, vDel), r, x, w.ev, "action", "a delete record does not carry the delete action")
					own = L("Name")
				} else {
					c.Check(is(kAct, vUpd), r, x, w.ev, "action", "a move record does not carry the update action")
					c.Check(kv[kRep] == nil || !is(kRep, rec("STFSRecordReplacesContentTrue")), r, x, w.ev, "content kept", "a move record claims to replace the content")
					own = kv[kName]
					if !c.Check(own != nil, r, x, w.ev, "old name", "a move record does not name the entry it moves") {
						continue
					}
				}
				base := rowOfName(own)
				if !c.Check(base != nil, r, x, w.ev, "row's own name", "the record does not name the entry exactly as the index stores it: "+own.String()) {
					continue
				}
				srcs[base] = true
				isRow := base == row
				isKid := false
				if kids != nil {
					isKid = base.has(kids.Results[0])
				}
				c.Check(isRow || isKid, r, x, w.ev, "affected entry", "a record is written for an entry that is neither the named one nor one beneath it")
				c.Check(L("Size").isInt() && L("Size").intVal() == 0, r, x, w.ev, "no content", "a record without content announces a size: "+L("Size").String())
				c.Check(L("Format").isInt() && L("Format").intVal() == 4, r, x, w.ev, "format", "the record is not written in PAX format, which its STFS metadata needs")
				for _, f := range []string{"Typeflag", "Linkname", "Mode", "Uid", "Gid", "Uname", "Gname", "ModTime", "AccessTime", "ChangeTime"} {
					c.Check(L(f).hasDeepField(base, rowField(f)), r, x, w.ev, "field "+f, "the record's "+f+" is not that of the entry's index row: "+L(f).String())
				}
				if op == "Move" {
					nn := L("Name")
					// which name exactly is decided by ops-tree
					c.Check(nn.has(r.param(1)) && (isRow || nn.has(own)), r, x, w.ev, "new name", "the new name does not follow from the target and the entry's stored name: "+nn.String())
				}
			}
			if r.mayOk(x) {
				c.Check(srcs[row], r, x, ws[0].ev, "named entry included", "no record is written for the named entry itself")
				if kids != nil {
					n := r.fact(x, r.E.eq(r.E.length(kids.Results[0]), r.E.mkInt(int64(len(srcs)-1))))
					c.Check(n == 1 && len(ws) == len(srcs), r, x, kids, "every child once", "the call succeeds without having written exactly one record for every entry beneath the directory")
				} else {
					c.Check(len(ws) == 1, r, x, nil, "one record", "more than one record is written for an entry without children")
				}
			}
			// directories take their children along
			if kids == nil {
				c.Check(!dir, r, x, ws[0].ev, "children of directories", "a directory is processed without its children")
			} else {
				ok := kids.arg(2) == r.param(0) || strip(kids.arg(2)) == rowName
				c.Check(ok, r, x, kids, "children of the named entry", "the children fetched are not those of the named entry: "+kids.arg(2).String())
				c.Check(r.at(ws[0].ev, r.E.eq(kids.err(), r.E.mkNil())) == 1, r, x, kids, "children error", "records are written although the children could not be listed")
			}
		}
		c.Check(some > 0, r, nil, nil, "records written", "no path writes a record")
	}
}


// opsSizes: what Delete and Move write is headers only, so no record may announce content.
func opsSizes(c *Ctx) {
	for _, op := range []string{"Delete", "Move"} {
		r := c.Run("pkg/operations", "Operations", op, RunOpt{Visits: 2, MaxItems: 3000000})
		if r == nil {
			continue
		}
		some := 0
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			for _, w := range r.writes(x) {
				if w.logical == nil {
					continue
				}
				some++
				s := strip(r.fieldT(w.logical, "Size"))
				c.Check(s.isInt() && s.intVal() == 0, r, x, w.ev, "no content", "a record that is followed by no content announces a size: "+s.String())
			}
		}
		c.Check(some > 0, r, nil, nil, "records written", "no path writes a record")
	}
}

// mainRow: the index row of the entry named by the first parameter.
func (r *Run) mainRow(x *Exit) *Term {
	for _, ev := range x.events() {
		if ev.is(mp+"GetHeader", mp+"GetHeaderByLinkname") && ev.arg(2) == r.param(0) && r.isNilOn(x, ev.err()) == 1 {
			return strip(ev.Results[0])
		}
	}
	return nil
}

// rowOfName: t is the Name of an index row; returns the row.
func rowOfName(t *Term) *Term {
	t = strip(t)
	if t == nil {
		return nil
	}
	_, f, b := fieldOf(t)
	if f != "Name" {
		return nil
	}
	return ptrOf(b)
}

// ptrOf: the object a field was read from, as a pointer.
func ptrOf(b *Term) *Term {
	b = strip(b)
	if b != nil && b.Op == "deref" {
		return strip(b.Args[0])
	}
	return b
}

func rowField(f string) string {
	switch f {
	case "Uid":
		return "UID"
	case "ModTime":
		return "Modtime"
	case "AccessTime":
		return "Accesstime"
	case "ChangeTime":
		return "Changetime"
	}
	return f
}

// hasDeepField: t contains the read of field f of the object base.
func (t *Term) hasDeepField(base *Term, f string) bool {
	return t.containsDeep(func(x *Term) bool {
		_, n, b := fieldOf(x)
		return strings.EqualFold(n, f) && ptrOf(b) == base
	})
}

// ---- lookups happen before anything is written -------------------------------

func opsPreconditions(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			first, fw := firstFrom(evs, 0, named(tarWriteHeader))
			for i, ev := range evs {
				if !strings.HasPrefix(ev.Callee, mp) {
					continue
				}
				if first >= 0 {
					c.Check(i < first, r, x, ev, ev.Callee+" before writing", "the index is consulted after the first record was already written, so a failing call leaves records behind")
					if ev.err() == nil || i > first {
						continue
					}
					ok := r.at(fw, r.E.eq(ev.err(), r.E.mkNil())) == 1
					if !ok && ev.is(mp+"GetHeader") {
						// an entry that is found by its link name instead
						_, alt := firstFrom(evs, i+1, named(mp+"GetHeaderByLinkname"))
						ok = alt != nil && r.at(fw, r.E.eq(alt.err(), r.E.mkNil())) == 1 && r.at(fw, r.E.eq(ev.err(), r.E.tt.mk("gval", "database/sql.ErrNoRows", nil))) == 1
					}
					c.Check(ok, r, x, ev, ev.Callee+" succeeded", "records are written although the lookup of the entry failed")
				} else {
					c.Ob(r.Name, ev.Callee)
				}
			}
		}
	}
}

// ---- errors --------------------------------------------------------------------

func opsErrors(c *Ctx) {
	for _, r := range c.opsAll() {
		c.errDiscipline(r, func(ev *Event, x *Exit) bool {
			er := ev.err()
			switch {
			case ev.is(evCloseReader):
				return true // nothing was written through it
			case ev.is(evCloseWriter):
				return find(x.events(), named(tarWriteHeader)) == nil
			case ev.Callee == "dyn":
				// the end of the list of files
				return typePath(ev.Results[0].Typ) == "pkg/config.FileConfig" && r.fact(x, r.E.eq(er, r.E.tt.mk("gval", "io.EOF", nil))) == 1
			case ev.is("archive/tar.FileInfoHeader"):
				// sockets are skipped
				for f, v := range x.St.facts {
					if v && f.isApp("strings.Contains") && f.has(er) {
						return true
					}
				}
			case ev.is(mp + "GetHeader"):
				return r.fact(x, r.E.eq(er, r.E.tt.mk("gval", "database/sql.ErrNoRows", nil))) == 1 && count(x.events(), func(e *Event) bool {
					return e.is(mp+"GetHeaderByLinkname", mp+"GetHeader") && e.err() != er && r.isNilOn(x, e.err()) == 1
				}) > 0
			case strings.HasPrefix(ev.Callee, "strconv.") || strings.HasPrefix(ev.Callee, "os/user."):
				return true
			}
			return false
		})
	}
}

// opsSubtree: moving a directory beneath itself writes nothing, however the two
// paths are spelled.
func opsSubtree(c *Ctx) {
	for _, kind := range []string{"dir", "dir/"} {
		for _, from := range []string{"P/N", ""} {
			for _, to := range []string{"P/N/M", "P/N/X/M"} {
				for _, sf := range []string{"/", "", "./"} {
					for _, st := range []string{"/", "", "./"} {
						a, b := sf+from, st+to
						if kind == "dir/" {
							a += "/"
						}
						if from == "" && a == "" {
							a = "."
						}
						if a == "//" || a == ".//" {
							continue
						}
						w := &world{nodes: map[string]string{"P": "dir", "P/N": kind}}
						r := c.Run("pkg/operations", "Operations", "Move", RunOpt{Visits: 2, MaxItems: 400000, Setup: func(r *Run, st *State) {
							w.e = r.E
							r.E.relDiffer = true
							r.E.Override = w.override
							r.Args[1], r.Args[2] = r.E.spell(a), r.E.spell(b)
						}, Observe: func(e *Engine, ev *Event, st *State) { w.observe(ev, st) }})
						if r == nil {
							return
						}
						for _, x := range r.Exits {
							if x.Kind == "cut" {
								continue
							}
							ev := find(x.events(), named(tarWriteHeader))
							c.Check(ev == nil, r, x, ev, "own subtree", "a directory is moved into its own subtree ("+a+" to "+b+")")
							c.Check(!r.mayOk(x), r, x, nil, "own subtree refused", "moving a directory into its own subtree is not refused ("+a+" to "+b+")")
						}
					}
				}
			}
		}
	}
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- an open file is a byte array with a cursor ------------------------------------
//
// Sequences of calls on a fresh handle are interpreted with symbolic arguments.
// Next to the code runs a reference: the cursor and the length of the content as
// terms. What the code did is read off the trace: at which position the write
// buffer was written or read, at which position of the entry's content the bytes
// that were delivered began.

const wcp = "(pkg/cache.WriteCache)."

// fileRef is the state of the reference.
type fileRef struct {
	writing   bool
	c, size   *Term
	uncertain bool
}

// bufState is what the trace says about the write buffer and the streams.
type bufState struct {
	made    *Event
	buf     *Term // the buffer
	cursor  *Term
	size    *Term
	closed  bool
	loaded  bool
	unknown bool
	acts    []bufAct
	streams []*stream
}

type bufAct struct {
	op  string // "write", "read", "truncate"
	ev  *Event
	pos *Term
}

type stream struct {
	pipe   *Event
	pos    *Term
	closed bool // its reading end
	acts   []streamAct
}

type streamAct struct {
	ev      *Event
	pos     *Term
	n       *Term
	discard bool
}

type handle struct {
	c                              *Ctx
	s                              *seq
	e                              *Engine
	size0                          *Term
	path                           *Term
	link, level, readOps, writeOps *Term
	fed                            map[string]bool
	// the outcomes of the next deliveries from a stream: "full", "part", "end",
	// "err"; of discarding: "ok", "end", "err"
	deliver []string
	discard string
	from    int
	dest    map[*Event]*Term
	busy    bool
	flags   handleFlags
	// what is judged: the use of the drive, only streams, only what is stored
	drive, streamsOnly, storeOnly bool
}

// ---- reading the trace -----------------------------------------------------------

func isDiscard(t *Term) bool {
	return t.contains(func(s *Term) bool { return (s.Op == "gval" || s.Op == "global") && s.Name == "io.Discard" })
}

func isPipe(ev *Event) bool { return ev.is("io.Pipe") && len(ev.Results) == 2 }

func (ev *Event) touches(t *Term) bool {
	for i, a := range ev.Args {
		if a.hasDeepArg(t) || ev.Snap != nil && ev.Snap[i] != nil && ev.Snap[i].hasDeepArg(t) {
			return true
		}
	}
	return false
}

// hasDeepArg: the term is part of the value (not only of how it was computed).
func (t *Term) hasDeepArg(sub *Term) bool {
	return t.contains(func(x *Term) bool { return x == sub })
}

func (h *handle) replay(evs []*Event) *bufState {
	e := h.e
	b := &bufState{}
	zero := e.mkInt(0)
	for _, ev := range evs {
		for _, r := range ev.Results {
			if r.Typ != nil && typePath(r.Typ) == "pkg/cache.WriteCache" && ev.Kind == "call" {
				b.made, b.buf, b.cursor, b.size, b.closed, b.loaded = ev, r, zero, zero, false, false
			}
		}
		if isPipe(ev) {
			b.streams = append(b.streams, &stream{pipe: ev, pos: zero})
			continue
		}
		if b.buf != nil && len(ev.Args) > 0 {
			h.bufEvent(b, ev)
		}
		for _, s := range b.streams {
			h.streamEvent(s, ev, b)
		}
	}
	return b
}

func (h *handle) bufEvent(b *bufState, ev *Event) {
	e := h.e
	n := func(t *Term) *Term { return e.length(strip(t)) }
	if strip(ev.Args[0]) == b.buf && (strings.HasPrefix(ev.Callee, wcp) || strings.HasPrefix(ev.Callee, "(io.")) {
		switch ev.Callee[strings.LastIndex(ev.Callee, ".")+1:] {
		case "Seek":
			b.cursor = h.seek(b, ev.arg(1), ev.arg(2))
			return
		case "Write":
			b.acts = append(b.acts, bufAct{"write", ev, b.cursor})
			b.cursor = e.add(b.cursor, n(ev.Args[1]))
			b.size = e.maxOf(b.size, b.cursor)
			return
		case "Read":
			b.acts = append(b.acts, bufAct{"read", ev, b.cursor})
			b.cursor = e.add(b.cursor, ev.Results[0])
			return
		case "Truncate":
			b.acts = append(b.acts, bufAct{"truncate", ev, b.cursor})
			b.size = strip(ev.Args[1])
			return
		case "Close":
			b.closed = true
			return
		case "Size", "Sync":
			return
		}
		b.unknown = true
		return
	}
	if ev.is("io.WriteString") && strip(ev.Args[0]) == b.buf {
		b.acts = append(b.acts, bufAct{"write", ev, b.cursor})
		b.cursor = e.add(b.cursor, n(ev.Args[1]))
		b.size = e.maxOf(b.size, b.cursor)
		return
	}
	if ev.is(opsRcv+"Restore") && ev.Kind == "call" {
		if dst := h.destination(ev); dst != nil && dst.hasDeepArg(b.buf) {
			b.loaded = true
			b.cursor = e.add(b.cursor, h.size0)
			b.size = e.maxOf(b.size, b.cursor)
		}
		return
	}
	if ev.is(opsRcv+"Update") && ev.Kind == "call" {
		// the content was read to its end
		b.cursor = e.sym("after "+ev.key, types.Typ[types.Int64])
		return
	}
	if ev.Kind == "call" && ev.touches(b.buf) {
		b.unknown = true
	}
}

func (h *handle) seek(b *bufState, off, whence *Term) *Term {
	e := h.e
	if !whence.isInt() {
		b.unknown = true
		return off
	}
	switch whence.intVal() {
	case 0:
		return off
	case 1:
		return e.add(b.cursor, off)
	case 2:
		return e.add(b.size, off)
	}
	b.unknown = true
	return off
}

// streamEvent: something was read from, or happened to, the reading end.
func (h *handle) streamEvent(s *stream, ev *Event, b *bufState) {
	e := h.e
	src, n, discard, ok := h.consumes(ev)
	if ok {
		if src >= len(ev.Args) || !h.argTouches(ev, src, s.pipe.Results[0]) {
			return
		}
		s.acts = append(s.acts, streamAct{ev, s.pos, n, discard})
		s.pos = e.add(s.pos, n)
		return
	}
	if ev.Kind == "call" && len(ev.Args) == 1 && strings.HasSuffix(ev.Callee, ").Close") && h.argTouches(ev, 0, s.pipe.Results[0]) {
		s.closed = true
		return
	}
	if ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".CloseWithError") && h.argTouches(ev, 0, s.pipe.Results[0]) {
		s.closed = true
		return
	}
	if ev.Kind == "call" && ev.touches(s.pipe.Results[0]) {
		b.unknown = true
	}
}

func (h *handle) argTouches(ev *Event, i int, t *Term) bool {
	return ev.Args[i].hasDeepArg(t) || i < len(ev.Snap) && ev.Snap[i] != nil && ev.Snap[i].hasDeepArg(t)
}

// consumes: which argument a call reads from, how much it got.
func (h *handle) consumes(ev *Event) (src int, n *Term, discard, ok bool) {
	switch {
	case ev.is("io.CopyN") && len(ev.Args) == 3:
		d := strip(ev.Args[0])
		return 1, ev.Results[0], isDiscard(d), true
	case ev.is("io.Copy") && len(ev.Args) >= 2:
		d := strip(ev.Args[0])
		return 1, ev.Results[0], isDiscard(d), true
	case ev.is("io.ReadFull", "io.ReadAtLeast"):
		return 0, ev.Results[0], false, true
	case strings.HasSuffix(ev.Callee, ").Read") && len(ev.Args) == 2 && len(ev.Results) == 2:
		return 0, ev.Results[0], false, true
	}
	return 0, nil, false, false
}

// destination is the writer a Restore writes the content to.
func (h *handle) destination(ev *Event) *Term {
	if t, ok := h.dest[ev]; ok {
		return t
	}
	cl, ok := h.s.r.funcOf(ev.arg(1))
	if !ok || ev.St == nil || h.busy {
		return nil
	}
	t := h.destinationOf(ev, cl)
	h.dest[ev] = t
	return t
}

func (h *handle) destinationOf(ev *Event, cl *Term) *Term {
	busy := h.busy
	h.busy = true
	defer func() { h.busy = busy }()
	var args []*Term
	for _, p := range cl.Fn.Params {
		args = append(args, h.e.sym("callback:"+p.Name(), p.Type()))
	}
	for _, y := range h.e.runFunc(ev.St.clone(), cl.Fn, args, cl.Args, nil, ev.Pos) {
		if y.Kind == "return" && len(y.Results) == 2 && h.s.r.isNilOn(y, y.Results[1]) != -1 {
			v := strip(y.Results[0])
			if v.Op == "iface" {
				v = v.Args[0]
			}
			if p := ptrElem(v.Typ); p != nil {
				if s := h.e.argSnap(y.St, strip(v)); s != nil {
					return h.e.app("writer", v, s)
				}
			}
			return v
		}
	}
	return nil
}

// maxOf keeps the maximum symbolic, in a canonical form.
func (e *Engine) maxOf(a, b *Term) *Term {
	if a == b {
		return a
	}
	if d := e.sub(b, a); d.isInt() || nonNeg(d) {
		if d.isInt() && d.intVal() < 0 {
			return a
		}
		return b
	}
	if a.isApp("max") && len(a.Args) == 2 {
		// max(max(x, y), b) with b >= y
		if d := e.sub(b, a.Args[1]); nonNeg(d) || d.isInt() && d.intVal() >= 0 {
			return e.maxOf(a.Args[0], b)
		}
	}
	return e.tt.mk("app", "max", types.Typ[types.Int64], a, b)
}

// nonNeg: a sum of lengths.
func nonNeg(t *Term) bool {
	if t.isInt() {
		return t.intVal() >= 0
	}
	if t.Poly == nil {
		return nonNegAtom(t)
	}
	pos, _ := polySigns(t.Poly)
	return pos && t.Poly.c >= 0
}

// ---- the world ------------------------------------------------------------------

func (h *handle) state() *bufState {
	var evs []*Event
	if h.e.cur.trace != nil {
		evs = h.e.cur.trace.Events()
	}
	return h.replay(evs)
}

func (h *handle) fromContent(ev *Event, src int) bool {
	if h.e.cur.trace == nil || src >= len(ev.Args) {
		return false
	}
	if t := strip(ev.Args[src]); t.Typ != nil && typePath(t.Typ) == "pkg/cache.WriteCache" {
		return true
	}
	for _, p := range h.e.cur.trace.Events() {
		if isPipe(p) && h.argTouches(ev, src, p.Results[0]) {
			return true
		}
	}
	return false
}

// override answers the calls of a step in which nothing fails except what the
// scenario says about the stream.
func (h *handle) override(ev *Event, slot int, typ types.Type) *Term {
	if h.busy || slot >= 100 || ev.Kind != "call" {
		return nil
	}
	e := h.e
	isErr := types.Identical(typ, errorType)
	if src, _, _, ok := h.consumesArgs(ev); ok && h.fromContent(ev, src) {
		return h.streamResult(ev, slot, typ, isErr)
	}
	m := ev.Callee[strings.LastIndex(ev.Callee, ".")+1:]
	if len(ev.Args) > 0 && ev.Args[0].Typ != nil && typePath(strip(ev.Args[0]).Typ) == "pkg/cache.WriteCache" {
		h.busy = true
		b := h.state()
		h.busy = false
		switch {
		case isErr:
			return e.mkNil()
		case b.buf != nil && strip(ev.Args[0]) == b.buf && m == "Seek":
			return h.seek(b, ev.arg(1), ev.arg(2))
		case b.buf != nil && strip(ev.Args[0]) == b.buf && m == "Size":
			return b.size
		case m == "Write":
			return e.length(strip(ev.Args[1]))
		}
		return nil
	}
	if ev.is("copy") {
		// all that was buffered fits
		if s := strip(ev.Args[1]); s.Op == "res" && s.Ev != nil && s.Ev.is("(*bytes.Buffer).Bytes") {
			w := strip(s.Ev.Args[0])
			var from *Event
			n := 0
			for _, p := range e.cur.trace.Events() {
				if len(p.Args) > 0 && p.key != s.Ev.key && p.touches(w) {
					from = p
					n++
				}
			}
			if n == 1 && from.is("io.CopyN") && strip(from.Args[0]) == w && strip(from.Args[2]) == e.length(strip(ev.Args[0])) {
				return from.Results[0]
			}
		}
		return nil
	}
	if isErr {
		return e.mkNil()
	}
	return nil
}

func (h *handle) consumesArgs(ev *Event) (src int, ask *Term, discard, ok bool) {
	e := h.e
	switch {
	case ev.is("io.CopyN") && len(ev.Args) == 3:
		d := strip(ev.Args[0])
		return 1, strip(ev.Args[2]), isDiscard(d), true
	case ev.is("io.ReadFull"):
		return 0, e.length(strip(ev.Args[1])), false, true
	case strings.HasSuffix(ev.Callee, ").Read") && len(ev.Args) == 2:
		return 0, e.length(strip(ev.Args[1])), false, true
	}
	return 0, nil, false, false
}

func (h *handle) streamResult(ev *Event, slot int, typ types.Type, isErr bool) *Term {
	e := h.e
	_, ask, discard, _ := h.consumesArgs(ev)
	out := h.discard
	if !discard {
		i := 0
		for j, p := range e.cur.trace.Events() {
			if src, _, d, ok := h.consumesArgs(p); j >= h.from && ok && !d && h.fromContent(p, src) {
				i++
			}
		}
		if i >= len(h.deliver) {
			i = len(h.deliver) - 1
		}
		out = h.deliver[i]
	}
	switch out {
	case "ok", "full":
		if isErr {
			return e.mkNil()
		}
		if discard && e.known(e.cur, e.lt(ask, e.mkInt(0), true)) != -1 && !nonNeg(ask) {
			return e.maxOf(e.mkInt(0), ask) // discarding less than nothing moves nothing
		}
		return ask
	case "part":
		if isErr {
			switch {
			case ev.is("io.CopyN"):
				return e.gerr("io.EOF")
			case ev.is("io.ReadFull"):
				return e.gerr("io.ErrUnexpectedEOF")
			}
			return e.mkNil()
		}
		m := e.sym("nat:part of "+ev.key, typ)
		e.assume(e.cur, e.lt(e.mkInt(0), m, true), true)
		e.assume(e.cur, e.lt(m, ask, true), true)
		return m
	case "end":
		if isErr {
			return e.gerr("io.EOF")
		}
		return e.mkInt(0)
	}
	if isErr {
		return e.gerr("the drive failed")
	}
	return e.sym("nat:before failing of "+ev.key, typ)
}

// observe: the entry is there, and as long as it was.
func (h *handle) observe(ev *Event, st *State) {
	for _, t := range ev.Results {
		if t.Typ != nil && typePath(t.Typ) == "pkg/cache.WriteCache" {
			h.e.assume(st, h.e.eq(t, h.e.mkNil()), false)
		}
	}
	if ev.is(opsRcv + "Restore") {
		h.destination(ev)
	}
	if ev.is("pkg/inventory.Stat") && len(ev.Results) == 2 {
		e := h.e
		e.assume(st, e.eq(ev.Results[0], e.mkNil()), false)
		for f, v := range map[string]*Term{"Size": h.size0, "Typeflag": e.mkInt('0'), "Mode": e.mkInt(0644)} {
			if nv := nameVar(ev.Results[0].Typ, f); nv != nil {
				e.store(st, e.fieldAddr(ev.Results[0], nv), v)
			}
		}
	}
}

// counterAt: how far the stream behind a counting reader has been read.
func (h *handle) counterAt(st *State, addr *Term) *Term {
	if h.busy {
		return nil
	}
	h.busy = true
	defer func() { h.busy = false }()
	sn := h.e.argSnap(st, addr.Args[0])
	var evs []*Event
	if st.trace != nil {
		evs = st.trace.Events()
	}
	for _, s := range h.replay(evs).streams {
		if sn != nil && sn.hasDeepArg(s.pipe.Results[0]) {
			return s.pos
		}
	}
	return nil
}

// ---- sequences -----------------------------------------------------------------------

type hexit struct {
	x     *Exit
	fn    *ssa.Function
	n     int // events before the last call
	ref   fileRef
	file  *Term
	label string
}

func (c *Ctx) newHandle(fl handleFlags, empty bool) (*handle, []*hexit) {
	mk, info := c.fn(fsPkg, "", "NewFile"), c.fn(fsPkg, "", "NewFileInfo")
	if mk == nil || info == nil {
		return nil, nil
	}
	h := &handle{c: c, drive: true, dest: map[*Event]*Term{}, fed: map[string]bool{}, flags: fl, deliver: []string{"full"}, discard: "ok"}
	s, xs := c.newSeq(info, "(*pkg/fs.File)", lockInline(fsLocksWatch), func(r *Run, st *State) {
		h.e = r.E
		h.size0 = r.E.sym("nat:length", types.Typ[types.Int64])
		if empty {
			h.size0 = r.E.mkInt(0)
		} else {
			r.E.assume(st, r.E.lt(r.E.mkInt(0), h.size0, true), true)
		}
		ints := 0
		for i, p := range info.Params {
			switch {
			case types.Identical(p.Type(), types.Typ[types.Int64]) && ints == 0:
				r.Args[i] = h.size0
				ints++
			case types.Identical(p.Type(), types.Typ[types.Bool]):
				r.Args[i] = r.E.mkBool(false)
			}
		}
		r.E.Override = h.override
		r.E.Observe = h.observe
		r.E.CounterAt = h.counterAt
	})
	h.s = s
	xs = s.then(xs, mk, func(p *seqExit) []*Term {
		args := h.e.Params(mk)
		for i, prm := range mk.Params {
			switch {
			case i == 0:
				h.readOps = args[i]
			case i == 1:
				h.writeOps = args[i]
			case i == 3:
				h.path = args[i]
			case i == 4:
				h.link = args[i]
			case i == 6:
				h.level = args[i]
			case i == 5:
				for n, v := range map[string]bool{"Read": fl.read, "Write": fl.write, "Append": fl.app, "Truncate": fl.trunc} {
					if nv := nameVar(args[i].Typ, n); nv != nil {
						h.e.store(p.x.St, h.e.fieldAddr(args[i], nv), h.e.mkBool(v))
					}
				}
				h.e.assume(p.x.St, h.e.eq(args[i], h.e.mkNil()), false)
			case types.Identical(prm.Type(), info.Signature.Results().At(0).Type()):
				args[i] = p.x.Results[0]
			case i == 8:
				h.e.assume(p.x.St, h.e.eq(args[i], h.e.mkNil()), false)
			}
		}
		return args
	})
	var out []*hexit
	for _, x := range xs {
		if x.x.Kind == "return" {
			out = append(out, &hexit{x: x.x, file: x.x.Results[0], ref: fileRef{c: h.e.mkInt(0), size: h.size0}})
		}
	}
	return h, out
}

// fsLocksWatch stands for "lookups are one step".
func fsLocksWatch(*Run) {}

// hop is one call: what it is given, and what the reference does.
type hop struct {
	method  string
	whence  int64
	deliver []string // the outcomes of reading from the drive
	discard string
}

func (o hop) String() string {
	s := o.method
	if o.method == "Seek" {
		s += []string{"(start)", "(current)", "(end)"}[o.whence]
	}
	if len(o.deliver) > 0 && o.deliver[0] != "full" {
		s += "[" + strings.Join(o.deliver, ",") + "]"
	}
	if o.discard != "" && o.discard != "ok" {
		s += "[discarding: " + o.discard + "]"
	}
	return s
}

// call makes one call on the file and compares it with the reference.
func (h *handle) call(p *hexit, o hop, depth int) []*hexit {
	c, e, r := h.c, h.e, h.s.r
	fn := c.fn(fsPkg, "File", o.method)
	if fn == nil {
		return nil
	}
	st := p.x.St.clone()
	args := []*Term{p.file}
	var buf, off, size *Term
	for _, prm := range fn.Params[1:] {
		a := e.sym(fmt.Sprintf("%s of call %d", prm.Name(), depth), prm.Type())
		switch {
		case types.Identical(prm.Type().Underlying(), types.NewSlice(types.Typ[types.Byte])) || types.Identical(prm.Type(), types.Typ[types.String]):
			buf = a
			e.assume(st, e.lt(e.mkInt(0), e.length(a), true), true)
		case o.method == "Truncate":
			size = a
		case types.Identical(prm.Type(), types.Typ[types.Int64]):
			off = a
		case types.Identical(prm.Type(), types.Typ[types.Int]):
			a = e.mkInt(o.whence)
		}
		args = append(args, a)
	}
	h.from = len(p.x.events())
	h.deliver, h.discard = o.deliver, o.discard
	if len(h.deliver) == 0 {
		h.deliver = []string{"full"}
	}
	if h.discard == "" {
		h.discard = "ok"
	}
	label := o.String()
	if p.label != "" {
		label = p.label + ", " + label
	}
	var out []*hexit
	for _, x := range e.Run(fn, st, args) {
		if x.Kind == "cut" {
			continue
		}
		q := &hexit{x: x, fn: fn, n: h.from, ref: p.ref, file: p.file, label: label}
		site := o.method
		ok := func(cond bool, ev *Event, construct, msg string) bool {
			return c.Check(cond, r, x, ev, site+": "+construct, msg+" (after "+label+" on a handle opened for "+h.flags.String()+")")
		}
		if h.storeOnly && o.method != "Sync" && o.method != "Close" {
			ok = func(cond bool, _ *Event, _, _ string) bool { return cond }
		}
		if !ok(x.Kind == "return", nil, "panic", "the call crashes the process") {
			continue
		}
		b := h.replay(x.events())
		if b.unknown {
			continue
		}
		if h.drive {
			h.streamRules(q, b, ok)
		}
		h.feeders(q, ok)
		if h.streamsOnly {
			if o.method == "Close" {
				if er := strip(x.Results[0]); h.drive && r.isNilOn(x, er) != -1 {
					for _, s := range b.streams {
						ok(s.closed, nil, "stream left open", "closing the file leaves its stream open, so the drive stays occupied")
					}
				}
				continue
			}
			out = append(out, q)
			continue
		}
		if h.judge(q, b, o, buf, off, size, ok) {
			out = append(out, q)
		}
	}
	return out
}

func (f handleFlags) String() string {
	s := ""
	for _, v := range []struct {
		on bool
		n  string
	}{{f.read, "reading"}, {f.write, "writing"}, {f.app, "appending"}, {f.trunc, "truncating"}} {
		if v.on {
			if s != "" {
				s += "+"
			}
			s += v.n
		}
	}
	return s
}

type okFn func(cond bool, ev *Event, construct, msg string) bool

// streamRules: one stream at a time; nothing else uses the drive while one is
// open.
func (h *handle) streamRules(q *hexit, b *bufState, ok okFn) {
	evs := q.x.events()
	for i, ev := range evs[q.n:] {
		if !isPipe(ev) && !(ev.Kind == "call" && ev.is(opsRcv+"Restore", opsRcv+"Update")) {
			continue
		}
		for _, s := range h.replay(evs[:q.n+i]).streams {
			ok(s.closed, ev, "stream left open", "the drive is used again while an earlier stream of the file, which nobody reads any more, still occupies it")
		}
	}
}

func (h *handle) same(x *Exit, a, b *Term) bool {
	a, b = h.e.rep(x.St, strip(a)), h.e.rep(x.St, strip(b))
	return a == b || h.e.known(x.St, h.e.eq(a, b)) == 1
}

// judge compares the call with the reference; false: the sequence ends here.
func (h *handle) judge(q *hexit, b *bufState, o hop, p, off, size *Term, ok okFn) bool {
	e, r, x := h.e, h.s.r, q.x
	ref := &q.ref
	zero := e.mkInt(0)
	var er *Term
	if rs := q.fn.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errorType) {
		er = strip(x.Results[rs.Len()-1])
	}
	failed := er != nil && r.isNilOn(x, er) == -1
	succeeded := er == nil || r.isNilOn(x, er) == 1
	neg := func(t *Term) int { return e.known(x.St, e.lt(t, zero, true)) }
	own := x.events()[q.n:]

	// what must fail
	var must *Term
	denied := false
	switch o.method {
	case "Read", "ReadAt":
		denied = !h.flags.read
		must = off
	case "Write", "WriteAt", "WriteString", "Truncate":
		denied = !h.flags.write
		must = off
		if o.method == "Truncate" {
			must = size
		}
	case "Seek":
		must = e.add(h.whence(ref, o.whence), off)
		if ref.writing {
			must = nil // left to the buffer
		}
	}
	if denied {
		ok(failed, nil, "permission", "the call succeeds although the handle was not opened for it")
		return false
	}
	if must != nil {
		switch k := neg(must); {
		case k == 1:
			ok(failed, nil, "negative offset", "a negative offset or length is accepted")
			return false
		case k == 0 && !failed:
			// not looked at
			bad := len(own) > 0 || o.method == "Seek"
			ok(!bad, nil, "negative offset", "whether the offset or length is negative is not checked")
			return false
		}
	}

	wop := o.method == "Write" || o.method == "WriteAt" || o.method == "WriteString" || o.method == "Truncate"
	if wop && !ref.writing {
		ref.writing = true
		if !ok(b.buf != nil && !b.closed, nil, "write buffer", "the call succeeds without a buffer for what is written") {
			return false
		}
		if !b.loaded {
			if !ok(h.flags.trunc || h.same(x, h.size0, zero), nil, "existing content", "the existing content is not loaded before the file is written to, so it is lost") {
				return false
			}
			ref.size = zero
		}
	}

	reading := o.method == "Read" || o.method == "ReadAt"
	if reading && !ref.writing {
		return h.judgeStream(q, b, o, p, off, er, ok)
	}
	if reading {
		return h.judgeBufRead(q, b, o, p, off, er, ok)
	}
	if !ok(succeeded, nil, "fails", "the call fails although nothing went wrong") {
		return false
	}
	pos := ref.c
	switch o.method {
	case "Seek":
		ref.c = e.add(h.whence(ref, o.whence), off)
		ok(h.same(x, x.Results[0], ref.c), nil, "reported offset", "another offset than the one the cursor must now have is reported: "+x.Results[0].String()+" instead of "+ref.c.String())
	case "Write", "WriteString", "WriteAt":
		n := e.length(p)
		switch {
		case o.method == "WriteAt":
			pos = off
		case h.flags.app:
			pos = ref.size
		}
		if o.method == "WriteAt" && h.flags.app {
			return false // no agreed meaning
		}
		var first *Event
		for _, a := range b.acts {
			if a.op != "write" || !in(own, a.ev) {
				continue
			}
			if first == nil {
				first = a.ev
				ok(h.same(x, a.pos, pos), a.ev, "position", "the bytes are not written where they must be: at "+a.pos.String()+" instead of "+pos.String())
			}
			ok(a.ev.Args[1].hasDeepArg(p), a.ev, "bytes", "other bytes than the given ones are written")
		}
		if !ok(first != nil, nil, "position", "nothing is written") {
			return false
		}
		ok(h.same(x, x.Results[0], n), nil, "count", "another count than the number of bytes is reported")
		if o.method != "WriteAt" {
			ref.c = e.add(pos, n)
		}
		ref.size = e.maxOf(ref.size, e.add(pos, n))
	case "Truncate":
		ref.size = size
	case "Stat":
		if ref.writing {
			m := r.infoMethods(x, x.Results[0])
			if t := m["Size"]; t != nil {
				ok(h.same(x, t, ref.size), nil, "size", "another size than the length of the content is reported: "+t.String()+" instead of "+ref.size.String())
			}
		} else if t := r.infoMethods(x, x.Results[0])["Size"]; t != nil {
			ok(h.same(x, t, ref.size), nil, "size", "another size than the length of the content is reported: "+t.String()+" instead of "+ref.size.String())
		}
	case "Sync", "Close":
		h.judgeSync(q, b, o, ok)
		if o.method == "Close" {
			return false
		}
	}
	if ref.writing {
		ok(b.buf != nil && !b.closed, nil, "write buffer", "the file forgets what was written")
		if b.buf != nil {
			ok(h.same(x, b.cursor, ref.c), nil, "cursor", "the cursor is at "+b.cursor.String()+" instead of "+ref.c.String())
			ok(h.same(x, b.size, ref.size), nil, "length", "the content is "+b.size.String()+" long instead of "+ref.size.String())
		}
	} else {
		ok(b.buf == nil || b.closed, nil, "write buffer", "the call makes the file write itself back")
	}
	return true
}

func (h *handle) whence(ref *fileRef, w int64) *Term {
	switch w {
	case 1:
		return ref.c
	case 2:
		return ref.size
	}
	return h.e.mkInt(0)
}

func in(evs []*Event, ev *Event) bool {
	for _, v := range evs {
		if v == ev {
			return true
		}
	}
	return false
}

// judgeStream: reading what is on the drive.
func (h *handle) judgeStream(q *hexit, b *bufState, o hop, p, off, er *Term, ok okFn) bool {
	e, r, x := h.e, h.s.r, q.x
	own := x.events()[q.n:]
	pos := q.ref.c
	if o.method == "ReadAt" {
		pos = off
	}
	total := e.mkInt(0)
	var last string
	for _, s := range b.streams {
		for _, a := range s.acts {
			if !in(own, a.ev) {
				continue
			}
			if a.discard {
				if er := a.ev.err(); er != nil && r.isNilOn(x, er) == -1 {
					last = h.outcomeOf(x, a.ev)
				}
				continue
			}
			ok(!s.closed, a.ev, "closed stream", "the file is read from a stream that was closed")
			ok(h.same(x, a.pos, e.add(pos, total)), a.ev, "position", "what is delivered starts at "+a.pos.String()+" of the content instead of "+e.add(pos, total).String())
			total = e.add(total, a.n)
			last = h.outcomeOf(x, a.ev)
		}
	}
	ok(b.buf == nil, nil, "write buffer", "reading makes the file write itself back")
	return h.judgeRead(q, o, p, total, er, last, ok)
}

// judgeRead: how much was read and whether it ended is reported.
func (h *handle) judgeRead(q *hexit, o hop, p, total, er *Term, last string, ok okFn) bool {
	e, r, x := h.e, h.s.r, q.x
	if !ok(last != "", nil, "nothing read", "the call reports an outcome without reading anything") {
		return false
	}
	failed := r.isNilOn(x, er) == -1
	n := strip(x.Results[0])
	ok(h.same(x, n, total), nil, "count", "another count than the number of bytes read is reported: "+n.String()+" instead of "+total.String())
	eof := failed && r.isSentinel(x, er, []string{"io.EOF"})
	empty := h.same(x, total, e.mkInt(0))
	all := h.same(x, total, e.length(p))
	switch {
	case last == "err":
		ok(failed && !eof, nil, "error", "an error of the drive is reported as success or as the end of the file")
		return false
	case all:
		ok(!failed, nil, "error", "the call fails although everything was read")
	case o.method == "ReadAt" || empty:
		ok(eof, nil, "end of file", "fewer bytes than asked for are returned without reporting the end of the file")
	case q.ref.writing:
		ok(!failed || eof, nil, "error", "the call fails although bytes were read")
	default:
		ok(!failed, nil, "end of file", "the end of the file is reported together with its last bytes, not by the next read")
	}
	if o.method == "Read" {
		q.ref.c = e.add(q.ref.c, total)
	}
	return true
}

func (h *handle) outcomeOf(x *Exit, ev *Event) string {
	er := ev.err()
	switch {
	case er == nil || h.s.r.isNilOn(x, er) != -1:
		return "full"
	case h.s.r.isSentinel(x, er, []string{"io.EOF", "io.ErrUnexpectedEOF"}):
		return "end"
	}
	return "err"
}

// judgeBufRead: reading what was written.
func (h *handle) judgeBufRead(q *hexit, b *bufState, o hop, p, off, er *Term, ok okFn) bool {
	e, x := h.e, q.x
	own := x.events()[q.n:]
	pos := q.ref.c
	if o.method == "ReadAt" {
		pos = off
	}
	total := e.mkInt(0)
	last := ""
	for _, a := range b.acts {
		if a.op != "read" || !in(own, a.ev) {
			continue
		}
		ok(h.same(x, a.pos, e.add(pos, total)), a.ev, "position", "the bytes are read at "+a.pos.String()+" instead of "+e.add(pos, total).String())
		ok(a.ev.Args[1].hasDeepArg(p), a.ev, "bytes", "the bytes do not end up in the caller's buffer")
		total = e.add(total, a.ev.Results[0])
		last = h.outcomeOf(x, a.ev)
	}
	if !h.judgeRead(q, o, p, total, er, last, ok) {
		return false
	}
	ok(h.same(x, b.cursor, q.ref.c), nil, "cursor", "the cursor is at "+b.cursor.String()+" instead of "+q.ref.c.String())
	ok(h.same(x, b.size, q.ref.size), nil, "length", "reading changes the length of the content")
	return true
}

// judgeSync: what was written ends up on the tape, all of it.
func (h *handle) judgeSync(q *hexit, b *bufState, o hop, ok okFn) {
	e, r, x := h.e, h.s.r, q.x
	own := x.events()[q.n:]
	updates := 0
	for i, ev := range own {
		if !isEffect(ev) {
			continue
		}
		if !ok(q.ref.writing, ev, "effect", "the call changes the tape although nothing was written") {
			continue
		}
		if !ok(ev.is(opsRcv+"Update"), ev, "effect", "what was written is not stored by updating the entry") {
			continue
		}
		updates++
		before := h.replay(x.events()[:q.n+i])
		ok(!before.closed, ev, "order", "the buffer is closed before it is stored")
		ok(ev.arg(0) == h.writeOps, ev, "destination", "what was written is not stored through the file's own write operations")
		ok(h.level == nil || ev.arg(2) == h.level, ev, "compression level", "another compression level than the configured one is used")
		ok(boolArg(ev, 3, true), ev, "replace", "the entry's content is not replaced")
		ok(boolArg(ev, 4, true), ev, "replace", "the entry's content is not replaced if nothing is left of it")
		first, msg := r.sources(ev, 1)
		if !ok(msg == "", ev, "source", msg) {
			continue
		}
		for _, f := range first {
			ok(h.same(f.x, f.path, h.path), ev, "entry", "the content is stored under another name than the file's: "+f.path.String())
			ok(h.same(f.x, f.link, h.link), ev, "entry", "the link target of the file is not kept")
			size := r.infoField(f.info, "Size")
			if size == nil {
				size = r.infoMethods(f.x, f.info)["Size"]
			}
			if size != nil {
				ok(h.same(f.x, size, q.ref.size), ev, "announced length", "the length announced is "+size.String()+" instead of "+q.ref.size.String())
			}
			h.keepsAttributes(f, ev, ok)
			cl, isFn := r.funcOf(f.file)
			if !ok(isFn, ev, "content", "no content is handed over") {
				continue
			}
			for _, y := range e.runFunc(f.x.St.clone(), cl.Fn, nil, cl.Args, nil, ev.Pos) {
				if y.Kind != "return" || len(y.Results) != 2 || r.isNilOn(y, y.Results[1]) == -1 {
					continue
				}
				v := strip(y.Results[0])
				if v.Op == "iface" {
					v = strip(v.Args[0])
				}
				has := b.buf != nil && v.hasDeepArg(b.buf)
				if sn := e.argSnap(y.St, v); sn != nil && b.buf != nil {
					has = has || sn.hasDeepArg(b.buf)
				}
				ok(has, ev, "content", "the content handed over is not what was written")
				at := h.replay(y.events())
				ok(at.cursor != nil && h.same(y, at.cursor, e.mkInt(0)), ev, "content start", "the content is not stored from its start")
				ok(at.size != nil && h.same(y, at.size, q.ref.size), ev, "content length", "the content is changed before it is stored")
			}
		}
	}
	if !q.ref.writing {
		if o.method == "Close" {
			for _, s := range b.streams {
				ok(s.closed, nil, "stream left open", "closing the file leaves its stream open, so the drive stays occupied")
			}
		}
		return
	}
	ok(updates == 1, nil, "stores", fmt.Sprintf("what was written is stored %d times", updates))
	if o.method == "Close" {
		ok(b.closed, nil, "buffer closed", "the buffer stays open")
		ok(find(own, func(ev *Event) bool {
			return len(ev.Args) > 0 && b.made != nil && len(b.made.Results) > 1 && strip(ev.Args[0]) == strip(b.made.Results[1])
		}) != nil, nil, "buffer cleaned up", "the buffer is not cleaned up")
	}
}

// keepsAttributes: writing content changes nothing else of the entry as it is
// now.
func (h *handle) keepsAttributes(f fileCfg, ev *Event, ok okFn) {
	info := strip(f.info)
	if !info.isApp("FileInfo") {
		return
	}
	for _, n := range []string{"Name", "ModTime", "AccessTime", "ChangeTime", "Uid", "Gid", "Uname", "Gname", "Mode", "Typeflag"} {
		t := strip(h.e.field(info.Args[0], n, nil))
		if n == "Mode" || n == "Typeflag" {
			want := map[string]int64{"Mode": 0644, "Typeflag": '0'}[n]
			ok(!t.isInt() || t.intVal() == want, ev, "attributes", "writing to the file changes its "+n)
			continue
		}
		_, fl, base := fieldOf(t)
		root := rootOf(t)
		ok(base != nil && fl == n && root != nil && root.Op == "res" && root.Ev.is("pkg/inventory.Stat"), ev, "attributes", "writing to the file replaces its "+n+" by something else than the entry's current one")
	}
}

// feeders: the goroutine behind a stream restores the file's content into it
// and ends it with the outcome.
func (h *handle) feeders(q *hexit, ok okFn) {
	e, r := h.e, h.s.r
	for i, ev := range q.x.events() {
		if ev.Kind != "go" || i < q.n || h.fed[ev.key] {
			continue
		}
		cl, isFn := r.funcOf(ev.arg(0))
		if !isFn || ev.St == nil {
			continue
		}
		var pipe *Event
		for _, p := range q.x.events()[:i] {
			if isPipe(p) {
				pipe = p
			}
		}
		if pipe == nil {
			continue
		}
		h.fed[ev.key] = true
		n := len(ev.St.trace.Events())
		over := e.Override
		e.Override = nil
		xs := e.runFunc(ev.St.clone(), cl.Fn, ev.Args[1:], cl.Args, nil, ev.Pos)
		e.Override = over
		for _, y := range xs {
			if y.Kind == "cut" {
				continue
			}
			own := y.events()
			if n <= len(own) {
				own = own[n:]
			}
			rs := find(own, named(opsRcv+"Restore"))
			if !ok(rs != nil && y.Kind == "return", ev, "stream", "the stream of the file is not fed with its content") {
				continue
			}
			ok(rs.arg(0) == h.readOps, rs, "stream source", "the content is not read through the file's own read operations")
			ok(rs.arg(3) == h.path, rs, "stream source", "the content of another entry is read")
			ok(rs.arg(4).isStr() && rs.arg(4).Name == "" && boolArg(rs, 5, true), rs, "stream source", "the entry is not read on its own")
			dst := h.destination(rs)
			ok(dst != nil && dst.hasDeepArg(pipe.Results[1]), rs, "stream destination", "the content is not written into the stream that is read")
			good := false
			for _, cv := range own {
				if len(cv.Args) == 0 || !h.argTouches(cv, 0, pipe.Results[1]) {
					continue
				}
				if strings.HasSuffix(cv.Callee, ").CloseWithError") {
					good = strip(cv.Args[1]) == strip(rs.err()) || cv.Args[1].has(rs.err()) || r.isNilOn(y, rs.err()) == -1 && r.isNilOn(y, cv.Args[1]) == -1 || r.isNilOn(y, rs.err()) == 1
				}
				if strings.HasSuffix(cv.Callee, ").Close") {
					good = r.isNilOn(y, rs.err()) == 1
				}
				if strings.HasSuffix(cv.Callee, ").Close") || strings.HasSuffix(cv.Callee, ").CloseWithError") {
					break // the first close decides
				}
			}
			ok(good, rs, "stream end", "the stream is not ended with the outcome of reading: the reader waits forever or takes an error for the end of the file")
		}
	}
}

// fileHandle runs all short sequences of calls.
func fileHandle(c *Ctx) {
	seeks := []hop{{method: "Seek", whence: 0}, {method: "Seek", whence: 1}, {method: "Seek", whence: 2}}
	reads := []hop{{method: "Read"}, {method: "ReadAt"}, {method: "Read", deliver: []string{"part", "end"}}}
	ends := []hop{{method: "ReadAt", deliver: []string{"part", "end"}}, {method: "Read", deliver: []string{"end"}}, {method: "ReadAt", deliver: []string{"end"}},
		{method: "Read", deliver: []string{"err"}}, {method: "ReadAt", deliver: []string{"err"}}, {method: "ReadAt", deliver: []string{"part", "err"}},
		{method: "Read", discard: "end"}, {method: "ReadAt", discard: "end"}, {method: "Read", discard: "err"}, {method: "ReadAt", discard: "err"}}
	writes := []hop{{method: "Write"}, {method: "WriteAt"}, {method: "WriteString"}, {method: "Truncate"}}
	other := []hop{{method: "Sync"}, {method: "Stat"}}
	join := func(xs ...[]hop) []hop {
		var out []hop
		for _, x := range xs {
			out = append(out, x...)
		}
		return out
	}
	last := []hop{{method: "Seek", whence: 1}, {method: "Close"}}
	for _, f := range []struct {
		fl     handleFlags
		empty  bool
		levels [][]hop
	}{
		{handleFlags{read: true}, false, [][]hop{join(seeks, reads), join(seeks, reads), join(seeks, reads, ends, last)}},
		{handleFlags{read: true}, false, [][]hop{join(ends, writes, other), join(seeks, reads, last)}},
		{handleFlags{read: true, write: true}, false, [][]hop{join(seeks, reads, writes), join(seeks, reads, writes, other), join(reads, ends[:6], last)}},
		{handleFlags{read: true, write: true}, true, [][]hop{writes, join(seeks, writes, other), last}},
		{handleFlags{write: true}, false, [][]hop{join(seeks, reads, writes), join(seeks, reads[:2], writes, other), last}},
		{handleFlags{write: true, app: true}, false, [][]hop{join(seeks, writes), join(seeks, reads[:2], writes, other), last}},
		{handleFlags{read: true, write: true, app: true}, false, [][]hop{join(seeks, reads, writes), join(seeks, reads, writes), last}},
		{handleFlags{write: true, app: true, trunc: true}, true, [][]hop{join(seeks, writes), join(seeks[1:2], writes, other), last}},
		{handleFlags{read: true, write: true, trunc: true}, true, [][]hop{join(seeks, reads, writes), join(seeks, writes, other), last}},
	} {
		h, xs := c.newHandle(f.fl, f.empty)
		if h == nil {
			return
		}
		levels := f.levels
		if c.Tier == "thorough" {
			// one more call in between
			mid := join(seeks, reads)
			if f.fl.write {
				mid = join(seeks[:2], reads[:1], writes)
			}
			levels = append(append(append([][]hop{}, levels[:1]...), mid), levels[1:]...)
		}
		h.walk(xs, levels, 1)
		c.account(h.s.r)
	}
}

// fileStore: what was written to an open file is what gets stored.
func fileStore(c *Ctx) {
	writes := []hop{{method: "Write"}, {method: "WriteAt"}, {method: "WriteString"}, {method: "Truncate"}}
	for _, s := range []struct {
		fl    handleFlags
		empty bool
	}{{handleFlags{read: true, write: true}, false}, {handleFlags{write: true}, true}, {handleFlags{write: true, app: true}, false}} {
		h, xs := c.newHandle(s.fl, s.empty)
		if h == nil {
			return
		}
		h.storeOnly, h.drive = true, false
		h.walk(xs, [][]hop{writes, append([]hop{{method: "Sync"}, {method: "Close"}}, writes...), {{method: "Close"}}}, 1)
		c.account(h.s.r)
	}
}

// fileStreams: what is behind the stream that a file is read from, for the
// properties that rely on it: content that cannot be read, decrypted or verified
// is never taken for the end of the file (C03, C08), and the goroutine that feeds
// the stream, which occupies the drive, ends (C10).
func fileStreams(c *Ctx) {
	one := func(o ...hop) []hop { return o }
	read, start, cl := hop{method: "Read"}, hop{method: "Seek", whence: 0}, hop{method: "Close"}
	for _, s := range []struct {
		fl     handleFlags
		levels [][]hop
	}{
		{handleFlags{read: true}, [][]hop{one(read, hop{method: "ReadAt"}, hop{method: "Read", deliver: []string{"part", "end"}}, hop{method: "Read", deliver: []string{"err"}}, hop{method: "Read", discard: "err"}), one(cl, start, read), one(cl, read), one(cl)}},
		{handleFlags{read: true, write: true}, [][]hop{one(read), one(hop{method: "Write"}, hop{method: "Truncate"}, hop{method: "Sync"}), one(cl, read), one(cl)}},
	} {
		h, xs := c.newHandle(s.fl, false)
		if h == nil {
			return
		}
		h.streamsOnly, h.drive = true, c.Prop == "C10"
		h.walk(xs, s.levels, 1)
		if len(h.fed) == 0 {
			c.Ob("(*pkg/fs.File).Read", "content is read without a goroutine")
		}
		c.account(h.s.r)
	}
}

func (h *handle) walk(xs []*hexit, levels [][]hop, depth int) {
	if len(levels) == 0 {
		return
	}
	for _, x := range xs {
		for _, o := range levels[0] {
			h.walk(h.call(x, o, depth), levels[1:], depth+1)
		}
	}
}

var _ = ssa.Instruction(nil)

package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- directories that are open -------------------------------------------------
//
// A handle of a directory (or of a file) is made as opening makes it, and its
// directory operations are run against a described index: every child once, in
// the index's order, with its own name, size, mode and time, and no more of them
// than were asked for.

// openEntry makes a handle for the entry called name.
func (c *Ctx) openEntry(w *world, name, spelling string, dir bool, fl handleFlags) (*seq, []*seqExit) {
	mk, info := c.fn(fsPkg, "", "NewFile"), c.fn(fsPkg, "", "NewFileInfo")
	if mk == nil || info == nil {
		return nil, nil
	}
	s, xs := c.newSeq(info, "(*pkg/fs.File)", worldInline, func(r *Run, st *State) {
		w.e = r.E
		r.E.Override = w.override
		r.E.Observe = w.observe
		for i, p := range info.Params {
			switch {
			case types.Identical(p.Type(), types.Typ[types.Bool]):
				r.Args[i] = r.E.mkBool(dir)
			case i == 0:
				r.Args[i] = r.E.mkStr("/")
				if name != "" {
					r.Args[i] = r.E.spell(name[strings.LastIndex(name, "/")+1:])
				}
			case typePath(p.Type()) == "io/fs.FileMode":
				m := int64(0o640)
				if dir {
					m = int64(os.ModeDir | 0o750)
				}
				r.Args[i] = r.E.mkInt(m)
			}
		}
	})
	e := s.r.E
	xs = s.then(xs, mk, func(p *seqExit) []*Term {
		args := e.Params(mk)
		for i, prm := range mk.Params {
			switch {
			case i == 3:
				args[i] = e.spell(spelling)
			case i == 4:
				args[i] = e.mkStr("")
			case i == 9:
				args[i] = e.mkStr("/")
				if name != "" {
					args[i] = e.spell(name[strings.LastIndex(name, "/")+1:])
				}
			case i == 5:
				for n, v := range map[string]bool{"Read": fl.read, "Write": fl.write, "Append": fl.app, "Truncate": fl.trunc} {
					if nv := nameVar(args[i].Typ, n); nv != nil {
						e.store(p.x.St, e.fieldAddr(args[i], nv), e.mkBool(v))
					}
				}
				e.assume(p.x.St, e.eq(args[i], e.mkNil()), false)
			case types.Identical(prm.Type(), info.Signature.Results().At(0).Type()):
				args[i] = p.x.Results[0]
			case i == 8:
				e.assume(p.x.St, e.eq(args[i], e.mkNil()), false)
			}
		}
		return args
	})
	return s, xs
}

// listItems are the elements of a slice of known length.
func (e *Engine) listItems(st *State, t *Term, et types.Type) ([]*Term, bool) {
	if els, ok := e.elemsOf(t); ok {
		return els, true
	}
	n := e.length(strip(t))
	if !n.isInt() || n.intVal() > 16 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.intVal(); i++ {
		out = append(out, e.load(st, e.indexAddr(t, e.mkInt(i), types.NewPointer(et)), et))
	}
	return out, true
}

func fsListing(c *Ctx) {
	type lcase struct {
		dir  string
		sp   string
		kids []string
	}
	cases := []lcase{
		{"P", "/P", nil},
		{"P", "/P", []string{"M"}},
		{"P", "/P", []string{"M", "N"}},
		{"P", "/P", []string{"N", "M", "L"}},
		{"", "/", []string{"M", "N"}},
		{"P/Q", "/P/Q", []string{"N", "M"}},
	}
	kinds := map[string]string{"M": "file", "N": "dir", "L": "file"}
	for _, method := range []string{"Readdir", "Readdirnames"} {
		fn := c.fn(fsPkg, "File", method)
		if fn == nil {
			return
		}
		for _, lc := range cases {
			full := func(k string) string {
				if lc.dir == "" {
					return k
				}
				return lc.dir + "/" + k
			}
			for _, count := range []int64{-1, 0, 1, 2, 3} {
				w := &world{nodes: map[string]string{"P": "dir", "P/Q": "dir"}, kids: map[string][]string{lc.dir: lc.kids}, obeyLimit: true}
				for _, k := range lc.kids {
					w.nodes[full(k)] = kinds[k]
				}
				label := fmt.Sprintf("%s with %d children, count %d", lc.sp, len(lc.kids), count)
				s, xs := c.openEntry(w, lc.dir, lc.sp, true, handleFlags{read: true})
				if s == nil {
					return
				}
				c.listed(s, fn, c.callWith(s, xs, fn, s.r.E.mkInt(count)), w, label, lc.kids, full, kinds, count)
			}
		}

		// a directory whose children cannot be read
		w := &world{nodes: map[string]string{"P": "dir", "P/M": "file"}, kids: map[string][]string{"P": {"M"}}, fail: 1}
		if s, xs := c.openEntry(w, "P", "/P", true, handleFlags{read: true}); s != nil {
			for _, y := range c.callWith(s, xs, fn, s.r.E.mkInt(-1)) {
				if y.x.Kind == "cut" || w.undecided(y.x) {
					continue
				}
				c.Check(y.x.Kind == "return" && s.r.isNilOn(y.x, errResultOf(fn, y.x)) == -1, s.r, y.x, nil, method+": index failure", "the children cannot be read from the index, but listing them reports success")
			}
		}
		// a file
		w = &world{nodes: map[string]string{"P": "file"}}
		if s, xs := c.openEntry(w, "P", "/P", false, handleFlags{read: true}); s != nil {
			for _, y := range c.callWith(s, xs, fn, s.r.E.mkInt(-1)) {
				if y.x.Kind == "cut" {
					continue
				}
				c.Check(y.x.Kind == "return" && s.r.isNilOn(y.x, errResultOf(fn, y.x)) == -1, s.r, y.x, nil, method+": file", "a file can be listed like a directory")
			}
		}
	}
	c.dirContent()
}

func (c *Ctx) callWith(s *seq, xs []*seqExit, fn *ssa.Function, args ...*Term) []*seqExit {
	return s.then(xs, fn, func(p *seqExit) []*Term {
		return append([]*Term{p.x.Results[0]}, args...)
	})
}

func (c *Ctx) listed(s *seq, fn *ssa.Function, ys []*seqExit, w *world, label string, kids []string, full func(string) string, kinds map[string]string, count int64) {
	e, r := s.r.E, s.r
	method := fn.Name()
	want := kids
	if count > 0 && int(count) < len(kids) {
		want = kids[:count]
	}
	decided := 0
	for _, y := range ys {
		x := y.x
		if x.Kind == "cut" || w.undecided(x) {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, method+": panic", "listing crashes the process ("+label+")") {
			continue
		}
		c.Check(len(effects(x)) == 0, r, x, firstOf(effects(x)), method+": no change", "listing changes the tape or the index ("+label+")")
		er := errResultOf(fn, x)
		if fs := r.faults(x); len(fs) > 0 {
			c.Check(r.isNilOn(x, er) == -1, r, x, fs[0], method+": error reported", "listing reports success although "+fs[0].Callee+" failed ("+label+")")
			continue
		}
		decided++
		if !c.Check(r.isNilOn(x, er) == 1, r, x, nil, method+": succeeds", "listing a directory fails ("+label+")") {
			continue
		}
		et := sliceElem(fn.Signature.Results().At(0).Type())
		els, ok := e.listItems(x.St, x.Results[0], et)
		if !ok {
			c.Ob(r.Name, method+": undecided")
			continue
		}
		if !c.Check(len(els) == len(want), r, x, nil, method+": size", fmt.Sprintf("%d instead of %d entries are listed (%s)", len(els), len(want), label)) {
			continue
		}
		seen := map[string]bool{}
		for _, el := range els {
			got := ""
			for _, k := range kids {
				if method == "Readdirnames" {
					if nm := c.nameFor(r, x, el); nm == full(k) || nm == k {
						got = k
					}
				} else if r.infoIs(x, el, full(k), kinds[k]) == "" && r.rowIs(x, el, full(k)) {
					got = k
				}
			}
			why := "something is listed that is not one of the children"
			if got == "" && method == "Readdir" {
				for _, k := range kids {
					if r.rowIs(x, el, full(k)) {
						why = r.infoIs(x, el, full(k), kinds[k])
					}
				}
			}
			if c.Check(got != "", r, x, nil, method+": children", why+" ("+label+")") {
				c.Check(!seen[got], r, x, nil, method+": once", "a child is listed twice ("+label+")")
				seen[got] = true
			}
		}
	}
	if decided == 0 {
		c.Ob(r.Name, method+": undecided")
	}
}

// nameFor: which entry's name a string is.
func (c *Ctx) nameFor(r *Run, x *Exit, t *Term) string {
	t = strip(t)
	if a, h := r.peelInfo(t); h != nil {
		if a != "Name" {
			return ""
		}
		n, _, _ := canon(strip(r.E.field(h, "Name", nil)))
		return n
	}
	n, _, _ := canon(t)
	return n
}

// rowIs: the file information is made from the row of that entry.
func (r *Run) rowIs(x *Exit, info *Term, name string) bool {
	for _, t := range r.infoMethods(x, info) {
		if _, h := r.peelInfo(t); h != nil {
			n, _, ok := canon(strip(r.E.field(h, "Name", nil)))
			return ok && n == name
		}
		if row := rowOf(t); row != nil {
			if nv := nameVar(row.Typ, "Name"); nv != nil {
				n, _, ok := canon(strip(r.E.load(x.St, r.E.fieldAddr(row, nv), nv.Type())))
				return ok && n == name
			}
		}
	}
	return true
}

// dirContent: a directory has no content. What reads or changes the content of a
// file fails on a directory and changes nothing, whatever the handle's flags are.
func (c *Ctx) dirContent() {
	for _, m := range []string{"Read", "ReadAt", "Write", "WriteAt", "WriteString", "Truncate", "Sync", "Close"} {
		fn := c.fn(fsPkg, "File", m)
		if fn == nil {
			continue
		}
		for _, fl := range []handleFlags{{read: true}, {read: true, write: true}, {write: true, app: true}, {write: true, trunc: true}} {
			w := &world{nodes: map[string]string{"P": "dir"}}
			s, xs := c.openEntry(w, "P", "/P", true, fl)
			if s == nil {
				return
			}
			e := s.r.E
			for _, y := range s.then(xs, fn, func(p *seqExit) []*Term {
				as := e.Params(fn)
				as[0] = p.x.Results[0]
				for i, prm := range fn.Params {
					if i == 0 {
						continue
					}
					if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						e.assume(p.x.St, e.lt(as[i], e.mkInt(0), true), false)
					} else {
						e.assume(p.x.St, e.lt(e.mkInt(0), e.length(as[i]), true), true)
					}
				}
				return as
			}) {
				x := y.x
				if x.Kind == "cut" {
					continue
				}
				if !c.Check(x.Kind == "return", s.r, x, nil, m+" on a directory: panic", "the call crashes the process when the handle is a directory's") {
					continue
				}
				c.Check(len(effects(x)) == 0, s.r, x, firstOf(effects(x)), m+" on a directory: no change", "the tape or the index is changed through the handle of a directory")
				er := errResultOf(fn, x)
				switch m {
				case "Sync":
				case "Close":
					c.Check(s.r.isNilOn(x, er) != -1 || len(s.r.faults(x)) > 0, s.r, x, nil, "Close on a directory", "the handle of a directory cannot be closed")
				default:
					c.Check(s.r.isNilOn(x, er) == -1, s.r, x, nil, m+" on a directory: fails", "the content of a directory can be read or written")
				}
			}
		}
	}
}

// fileErrors: what changes a file's content, or makes it last, reports success
// only if every step succeeded. (What is read is compared with the reference.)
func fileErrors(c *Ctx) {
	var fns []*ssa.Function
	for _, m := range []string{"Write", "WriteAt", "WriteString", "Truncate", "Sync", "Close"} {
		fn := c.fn(fsPkg, "File", m)
		if fn == nil {
			return
		}
		fns = append(fns, fn)
	}
	for _, fl := range []handleFlags{{read: true, write: true}, {write: true, app: true}, {read: true, write: true, trunc: true}} {
		for _, kind := range []string{"file", "", "dir"} {
			for fail := 0; fail <= 3; fail++ {
				for _, first := range fns {
					w := &world{nodes: map[string]string{"P": "dir", "P/N": kind}, fail: fail}
					s, xs := c.openEntry(w, "P/N", "/P/N", false, fl)
					if s == nil {
						return
					}
					xs = c.fileStep(s, xs, first, 0)
					for _, second := range fns {
						if first.Name() == "Write" || second.Name() == "Close" {
							c.fileStep(s, xs, second, 1)
						}
					}
				}
			}
		}
	}
}

// fileStep is one call on the handle.
func (c *Ctx) fileStep(s *seq, xs []*seqExit, fn *ssa.Function, depth int) []*seqExit {
	e, r := s.r.E, s.r
	ys := s.then(xs, fn, func(p *seqExit) []*Term {
		as := e.Params(fn)
		h := p
		for i := 0; i < depth; i++ {
			h = h.prev
		}
		as[0] = h.x.Results[0]
		return as
	})
	var ok []*seqExit
	for _, y := range ys {
		x := y.x
		if x.Kind != "return" {
			continue
		}
		er := errResultOf(fn, x)
		if r.isNilOn(x, er) == -1 {
			continue
		}
		for _, ev := range x.events()[y.from:] {
			ee := ev.err()
			if ee == nil || ev.Kind != "call" {
				continue
			}
			good := ee == er || r.isNilOn(x, ee) == 1 ||
				isLookup(ev) && ee.Op == "gval" && ee.Name == "database/sql.ErrNoRows" ||
				// the ends of a pipe always close
				strings.HasPrefix(ev.Callee, "(*io.PipeReader).") || strings.HasPrefix(ev.Callee, "(*io.PipeWriter).")
			c.Check(good, r, x, ev, fn.Name()+": error of "+ev.Callee, "the call reports success although this step failed (its error is dropped)")
		}
		ok = append(ok, y)
	}
	return ok
}

// fsSymlink: a link is one new record which joins the two names; where the link
// cannot be, nothing is written.
func fsSymlink(c *Ctx) {
	linking := effect{opsRcv + "Archive", func(r *Run, x *Exit, ev *Event) string {
		if !r.onWriteOps(c, ev) {
			return "the link is not created through the write operations"
		}
		if !boolArg(ev, 3, false) || !boolArg(ev, 4, false) {
			return "creating a link may overwrite the tape"
		}
		src, msg := r.sources(ev, 1)
		if msg != "" {
			return msg
		}
		for _, s := range src {
			a, _, ok1 := canon(s.path)
			b, _, ok2 := canon(s.link)
			if ok1 && ok2 && !(a == "P/N" && b == "P/M") {
				return "the link joins other names: " + a + ", " + b
			}
		}
		return ""
	}}
	for _, sp := range []string{"/P/M", "P/M", "./P/M"} {
		fc := &fsCase{label: fmt.Sprintf("link %q", sp), args: []any{"/P/N", sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": "file"}}}
		c.judge(c.fsRun("SymlinkIfPossible", fc), fc, outcome{effects: []effect{linking}})
		for _, k := range []string{"", "file"} {
			fc := &fsCase{label: fmt.Sprintf("link %q below %q", sp, k), args: []any{"/N", sp}, world: world{nodes: map[string]string{"N": "file", "P": k}}}
			want := outcome{fails: true}
			if k == "" {
				want.class = eNotExist
			}
			c.judge(c.fsRun("SymlinkIfPossible", fc), fc, want)
		}
		for _, k := range []string{"file", "dir"} {
			fc := &fsCase{label: fmt.Sprintf("link %q where there is a %s", sp, k), args: []any{"/P/N", sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": "file", "P/M": k}}}
			c.judge(c.fsRun("SymlinkIfPossible", fc), fc, outcome{fails: true, class: eExist})
		}
	}
}

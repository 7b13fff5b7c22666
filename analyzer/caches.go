package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- counting readers and writers -------------------------------------------------

// counterRule: a counting reader or writer passes every call on unchanged and
// counts exactly the bytes that went through, also when the call failed.
func counterRule(c *Ctx) {
	n := 0
	for _, pkg := range c.packages("") {
		sp := c.P.SSA[pkg]
		for _, name := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			ptr := types.NewPointer(tn.Type())
			probe := NewEngine(c.P)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if b, isB := f.Type().Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 || !probe.isCounterField(ptr, f.Name()) {
					continue
				}
				for _, m := range c.P.Methods(pkg, name) {
					n++
					c.counterMethod(m, f)
				}
			}
		}
	}
	c.Check(n > 0, nil, nil, nil, "counters", "no counting reader or writer is left")
}

func (c *Ctx) packages(prefix string) []string {
	var out []string
	for p := range c.P.SSA {
		if strings.HasPrefix(p, prefix) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) counterMethod(m *ssa.Function, f *types.Var) {
	counts := m.Name() == "Read" || m.Name() == "Write"
	var old *Term
	r := c.RunFn(m, RunOpt{Visits: 3, Inline: allInline, Setup: func(r *Run, st *State) {
		r.E.NoCounters = true
		old = strip(r.E.load(st, r.E.fieldAddr(r.Args[0], f), f.Type()))
	}})
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, m.Name(), "counting can panic") {
			continue
		}
		now := strip(r.E.load(x.St, r.E.fieldAddr(r.Args[0], f), f.Type()))
		if !counts {
			c.Check(now == old || r.fact(x, r.E.eq(now, old)) == 1, r, x, nil, m.Name()+": count", "the count changes although nothing is read or written")
			continue
		}
		var inner *Event
		calls := 0
		for _, ev := range x.events() {
			if strings.HasSuffix(ev.Callee, "."+m.Name()) && len(ev.Args) > 1 {
				inner = ev
				calls++
			}
		}
		if !c.Check(calls == 1, r, x, nil, m.Name()+": passes on", fmt.Sprintf("the call is passed on %d times", calls)) {
			continue
		}
		c.Check(len(r.Args) > 1 && strip(inner.Args[1]) == strip(r.Args[1]), r, x, inner, m.Name()+": passes on", "another buffer is passed on")
		c.Check(len(x.Results) == 2 && strip(x.Results[0]) == strip(inner.Results[0]) && strip(x.Results[1]) == strip(inner.Results[1]), r, x, inner, m.Name()+": result", "the result is not the one of the call that is passed on")
		want := r.E.add(old, inner.Results[0])
		c.Check(now == strip(want) || r.fact(x, r.E.eq(now, want)) == 1, r, x, inner, m.Name()+": count", "what is counted is not what went through: "+now.String())
	}
}

// ---- what a file is written to before it goes to the tape ----------------------------

const (
	fbPkg  = "(*github.com/mattetti/filebuffer.Buffer)."
	bufPkg = "(*bytes.Buffer)."
)

// cacheWrite: a new write cache is empty and nobody else's; the one in memory
// behaves like a file.
func cacheWrite(c *Ctx) {
	for _, k := range []string{"WriteCacheTypeMemory", "WriteCacheTypeFile", ""} {
		v := "another"
		if k != "" {
			v = c.constStr("pkg/config", k)
		}
		c.newCache(v, k)
	}
}

func (c *Ctx) newCache(v, label string) {
	mk := c.fn("pkg/cache", "", "NewCacheWrite")
	if mk == nil {
		return
	}
	m := &memCache{c: c}
	s, xs := c.newSeq(mk, "pkg/cache.NewCacheWrite("+v+")", allInline, func(r *Run, st *State) {
		m.r = r
		for i := range r.Args {
			if i == 1 {
				r.Args[i] = r.E.mkStr(v)
			}
		}
		r.E.Override = m.override
	})
	r := s.r
	ok := 0
	for _, q := range xs {
		x := q.x
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return" && len(x.Results) == 3, r, x, nil, "returns", "making a write cache can panic") {
			continue
		}
		er := strip(x.Results[2])
		if label == "" {
			c.Check(r.isNilOn(x, er) == -1, r, x, nil, "unknown kind", "an unsupported kind of write cache is accepted")
			continue
		}
		if r.isNilOn(x, er) == -1 {
			bad := false
			for _, ev := range x.events() {
				bad = bad || ev.err() != nil && r.isNilOn(x, ev.err()) == -1
			}
			c.Check(bad, r, x, nil, "supported kind", "a supported kind of write cache is refused")
			continue
		}
		ok++
		for _, ev := range x.events() {
			if e := ev.err(); e != nil && len(ev.Results) > 0 {
				c.Check(r.isNilOn(x, e) == 1, r, x, ev, "errors", "a write cache is made although this call failed")
			}
		}
		i := x.Results[0]
		if v := strip(i); v.Op == "iface" {
			i = v
		} else if i.Op != "iface" && v.Typ != nil && !types.IsInterface(v.Typ) {
			i = r.E.iface(v, v.Typ)
		}
		if i.Op != "iface" || i.Typ == nil {
			continue
		}
		// fresh backing
		var backing *Event
		for _, ev := range x.events() {
			if len(ev.Results) == 0 || !r.holds(x, i, ev.Results[0]) {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Callee, "filebuffer.New"):
				backing = ev
				a := ev.snap(0)
				els, known := r.E.elemsOf(a)
				c.Check(!known || len(els) == 0, r, x, ev, "empty", "a new write cache is not empty")
			case ev.is("os.CreateTemp", "io/ioutil.TempFile"), strings.HasSuffix(ev.Callee, "afero.TempFile"):
				backing = ev
			}
		}
		shared := ""
		if backing == nil {
			strip(i.Args[0]).containsDeep(func(t *Term) bool {
				if t.Op == "global" || t.Op == "gval" {
					shared = t.Name
				}
				return false
			})
			for _, ev := range x.events() {
				if ev.is("os.OpenFile", "os.Create", "os.Open") {
					shared = "a file with a fixed name"
				}
			}
		}
		c.Check(shared == "", r, x, nil, "own", "all write caches share "+shared)
		if backing != nil && !strings.HasSuffix(backing.Callee, "filebuffer.New") {
			c.cleanup(r, x, backing)
		}
		if backing != nil && strings.HasSuffix(backing.Callee, "filebuffer.New") {
			m.buf = strip(backing.Results[0])
			for _, method := range []string{"Size", "Sync", "Truncate", "Write", "Read", "Seek", "Close"} {
				m.method(s, q, i, method)
			}
		} else {
			m.buf = nil
			m.method(s, q, i, "Size")
		}
	}
	if label != "" {
		c.Check(ok > 0, r, nil, nil, "supported kind", "a supported kind of write cache cannot be made")
	}
}

// holds: the value reaches the object.
func (r *Run) holds(x *Exit, i, obj *Term) bool {
	v := strip(i.Args[0])
	if v == strip(obj) || v.hasDeep(strip(obj)) {
		return true
	}
	if s := derefStruct(v.Typ); s != nil {
		for k := 0; k < s.NumFields(); k++ {
			if strip(r.E.load(x.St, r.E.fieldAddr(v, s.Field(k)), s.Field(k).Type())).hasDeep(strip(obj)) {
				return true
			}
		}
	}
	return false
}

// cleanup removes the cache's own file and nothing else.
func (c *Ctx) cleanup(r *Run, x *Exit, backing *Event) {
	f, is := r.funcOf(x.Results[1])
	if !is {
		return
	}
	before := len(x.events())
	for _, y := range r.E.runFunc(x.St.clone(), f.Fn, nil, f.Args, nil, x.Pos) {
		for _, ev := range y.events()[before:] {
			if ev.is("os.Remove", "os.RemoveAll") {
				own := ev.arg(0).hasDeep(strip(backing.Results[0])) && (ev.arg(0).Op == "res" && strings.HasSuffix(ev.arg(0).Ev.Callee, ").Name") || ev.arg(0).Op == "app" && strings.HasSuffix(ev.arg(0).Name, ").Name"))
				c.Check(own, r, x, ev, "clean up", "cleaning up removes something else than the cache's own file: "+ev.arg(0).String())
			}
		}
	}
}

// memCache is the model of the buffer in memory: its length and its cursor.
type memCache struct {
	c   *Ctx
	r   *Run
	buf *Term
	ptr *Term // the bytes.Buffer behind it
}

func (m *memCache) length() *Term { return m.r.E.sym("nat:length", types.Typ[types.Int64]) }
func (m *memCache) cursor() *Term { return m.r.E.sym("nat:cursor", types.Typ[types.Int64]) }

// at is the length after the events; nil: not known.
func (m *memCache) at(evs []*Event) *Term {
	e, l := m.r.E, m.length()
	for _, ev := range evs {
		switch {
		case ev.is(bufPkg + "Truncate"):
			l = ev.arg(1)
		case ev.is(bufPkg + "Write"):
			l = e.add(l, e.app("len", ev.arg(1)))
			if k := strip(ev.arg(1)); k.isApp("makeslice") {
				l = e.add(m.at2(evs, ev), k.Args[len(k.Args)-1])
			}
		case strings.HasPrefix(ev.Callee, bufPkg) && !ev.is(bufPkg+"Len", bufPkg+"Bytes", bufPkg+"Cap", bufPkg+"Grow"), ev.is(fbPkg + "Write"):
			return nil
		}
		if l == nil {
			return nil
		}
	}
	return l
}

func (m *memCache) at2(evs []*Event, ev *Event) *Term {
	for i := range evs {
		if evs[i] == ev {
			return m.at(evs[:i])
		}
	}
	return nil
}

func (m *memCache) override(ev *Event, slot int, typ types.Type) *Term {
	e := m.r.E
	var evs []*Event
	if e.cur != nil && e.cur.trace != nil {
		evs = e.cur.trace.Events()
	}
	switch {
	case ev.is(bufPkg+"Len") && slot == 0:
		return m.at(evs)
	case ev.is(fbPkg+"Seek") && slot == 0:
		if o, w := ev.arg(1), ev.arg(2); o.isInt() && w.isInt() && o.intVal() == 0 && w.intVal() == 1 {
			return m.cursor()
		}
	}
	return nil
}

func (m *memCache) method(s *seq, q *seqExit, i *Term, name string) {
	c, r, e := m.c, m.r, m.r.E
	sel := c.P.Prog.MethodSets.MethodSet(i.Typ).Lookup(nil, name)
	if sel == nil {
		return
	}
	fn := c.P.Prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	var args []*Term
	var idx *types.Var
	xs := s.then([]*seqExit{q}, fn, func(p *seqExit) []*Term {
		args = e.Params(fn)
		args[0] = i.Args[0]
		if m.buf != nil {
			if idx = nameVar(m.buf.Typ, "Index"); idx != nil {
				e.store(p.x.St, e.fieldAddr(m.buf, idx), m.cursor())
			}
		}
		return args
	})
	same := func(x *Exit, a, b *Term) bool {
		if a == nil || b == nil {
			return true
		}
		a, b = e.rep(x.St, strip(a)), e.rep(x.St, strip(b))
		return a == b || e.known(x.St, e.eq(a, b)) == 1
	}
	n := 0
	for _, y := range xs {
		x := y.x
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, name, "the write cache can panic") {
			continue
		}
		own := x.events()[len(q.x.events()):]
		er := errResultOf(fn, x)
		failed := er != nil && r.isNilOn(x, er) == -1
		if m.buf == nil {
			// a file: its size is the one of the file
			for _, ev := range own {
				if ev.err() != nil && r.isNilOn(x, ev.err()) == -1 {
					c.Check(failed, r, x, ev, name, "an error of the file is not reported")
				}
			}
			if !failed && len(x.Results) > 0 {
				n++
				t := strip(x.Results[0])
				good := t.containsDeep(func(k *Term) bool {
					return k.Op == "res" && strings.HasSuffix(k.Ev.Callee, ").Stat") || k.Op == "res" && strings.HasSuffix(k.Ev.Callee, ").Size") || k.Op == "res" && strings.HasSuffix(k.Ev.Callee, ").Seek")
				})
				c.Check(good && (t.Op == "res" || t.Op == "app" && strings.HasSuffix(t.Name, ".Size")), r, x, nil, name, "the size that is reported is not the size of the file: "+t.String())
			}
			continue
		}
		l := m.at(own)
		now := m.cursor()
		if idx != nil {
			now = strip(e.load(x.St, e.fieldAddr(m.buf, idx), idx.Type()))
		}
		for k, ev := range own {
			if ev.is(bufPkg + "Truncate") {
				at := m.at(own[:k])
				c.Check(at == nil || r.at(ev, e.lt(at, ev.arg(1), true)) != 1, r, x, ev, name, "the buffer is truncated to more than it holds, which panics")
			}
			if ev.is(bufPkg+"Write") && strip(ev.arg(1)).isApp("makeslice") {
				continue
			}
			if er2 := ev.err(); er2 != nil && r.isNilOn(x, er2) == -1 {
				c.Check(failed, r, x, ev, name, "an error of the buffer is not reported")
			}
		}
		switch name {
		case "Size":
			if !failed {
				n++
				c.Check(same(x, x.Results[0], m.length()), r, x, nil, name, "the size that is reported is not the length of the buffer: "+x.Results[0].String())
			}
			c.Check(same(x, l, m.length()) && same(x, now, m.cursor()), r, x, nil, name, "asking for the size changes the buffer")
		case "Sync":
			n++
			c.Check(!failed, r, x, nil, name, "syncing a buffer fails")
			c.Check(same(x, l, m.length()) && same(x, now, m.cursor()), r, x, nil, name, "syncing changes the buffer")
		case "Truncate":
			n++
			size := strip(args[1])
			if !failed {
				c.Check(e.known(x.St, e.lt(size, e.mkInt(0), true)) == -1 || e.known(x.St, e.lt(size, e.mkInt(0), true)) == 0 && len(own) == 0, r, x, nil, name, "a negative size is accepted")
				c.Check(same(x, l, size), r, x, nil, name, fmt.Sprintf("truncating leaves %v bytes instead of %v", l, size))
			} else {
				may := e.known(x.St, e.lt(size, e.mkInt(0), true)) == 1
				for _, ev := range own {
					may = may || ev.err() != nil && r.isNilOn(x, ev.err()) == -1
				}
				c.Check(may, r, x, nil, name, "truncating fails although nothing is wrong")
			}
			c.Check(same(x, now, m.cursor()), r, x, nil, name, "truncating moves the cursor")
		case "Write":
			if failed {
				continue
			}
			p := strip(args[1])
			lp := e.app("len", p)
			end := e.add(m.cursor(), lp)
			copies := 0
			for k, ev := range own {
				if ev.Callee != "copy" {
					continue
				}
				copies++
				at := m.at(own[:k])
				switch d := strip(ev.arg(0)); {
				case d.isApp("slice") && len(d.Args) > 1 && resOf(d.Args[0], 0, bufPkg+"Bytes"):
					c.Check(same(x, d.Args[1], m.cursor()), r, x, ev, name, "what is written does not go to the cursor")
				case resOf(d, 0, bufPkg+"Bytes"):
					c.Check(same(x, e.mkInt(0), m.cursor()), r, x, ev, name, "what is written does not go to the cursor")
				}
				c.Check(strip(ev.arg(1)) == p, r, x, ev, name, "something else than what was given is written")
				if at != nil {
					c.Check(same(x, at, end) || e.known(x.St, e.lt(at, end, true)) == -1 || e.known(x.St, e.eq(lp, e.mkInt(0))) == 1, r, x, ev, name, "the buffer is not long enough to take what is written")
					c.Check(same(x, at, end) || same(x, at, m.length()), r, x, ev, name, "writing cuts the buffer off or leaves something behind it")
				}
				n++
				c.Check(same(x, x.Results[0], ev.Results[0]) || same(x, x.Results[0], lp), r, x, ev, name, "the number of bytes that is reported is not the number that was written")
				c.Check(same(x, now, e.add(m.cursor(), ev.Results[0])) || same(x, now, end), r, x, ev, name, "the cursor does not end up behind what was written: "+now.String())
			}
			for _, ev := range own {
				if ev.is(fbPkg + "Write") {
					n++
					copies++
					// cuts everything behind the cursor off
					c.Check(e.known(x.St, e.lt(end, m.length(), true)) == -1 || e.known(x.St, e.eq(m.cursor(), m.length())) == 1, r, x, ev, name, "writing in the middle cuts off the rest")
				}
			}
			c.Check(copies > 0 || e.known(x.St, e.eq(lp, e.mkInt(0))) == 1, r, x, nil, name, "writing succeeds without writing anything")
		default:
			// passed on to the buffer
			var inner *Event
			for _, ev := range own {
				if ev.is(fbPkg + name) {
					inner = ev
				}
			}
			n++
			if inner == nil {
				continue
			}
			for k := range x.Results {
				if k < len(inner.Results) {
					c.Check(same(x, x.Results[k], inner.Results[k]), r, x, inner, name, "the result is not the one of the buffer")
				}
			}
			for k := 1; k < len(args) && k < len(inner.Args); k++ {
				c.Check(strip(inner.Args[k]) == strip(args[k]), r, x, inner, name, "another argument is passed on")
			}
		}
	}
	c.Check(n > 0, r, nil, nil, name, "the write cache's "+name+" never succeeds")
}

func errResultOf(fn *ssa.Function, x *Exit) *Term {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || len(x.Results) != rs.Len() || !types.Identical(rs.At(rs.Len()-1).Type(), errorType) {
		return nil
	}
	return strip(x.Results[rs.Len()-1])
}

// ---- the view on a filesystem whose root is a directory ---------------------------------

const aferoPkg = "github.com/spf13/afero."

func cacheFilesystem(c *Ctx) {
	kinds := map[string]string{"": c.constStr("pkg/config", "NoneKey"), "memory": c.constStr("pkg/config", "FileSystemCacheTypeMemory"), "dir": c.constStr("pkg/config", "FileSystemCacheTypeDir"), "other": "another"}
	for _, k := range []string{"", "memory", "dir", "other"} {
		for _, root := range []string{"", ".", "/", "./", "dir", "dir/sub", "./dir", "/dir"} {
			k, root := k, root
			label := fmt.Sprintf("%q over %q", kinds[k], root)
			r := c.Run("pkg/cache", "", "NewCacheFilesystem", RunOpt{Visits: 3, Inline: allInline, Setup: func(r *Run, st *State) {
				n := 0
				for i, a := range r.Args {
					if types.Identical(a.Typ, types.Typ[types.String]) {
						switch n {
						case 0:
							r.Args[i] = r.E.mkStr(root)
						case 1:
							r.Args[i] = r.E.mkStr(kinds[k])
						}
						n++
					}
				}
			}})
			if r == nil {
				return
			}
			ok := 0
			for _, x := range r.Exits {
				if x.Kind == "cut" {
					continue
				}
				if !c.Check(x.Kind == "return" && len(x.Results) == 2, r, x, nil, "returns", "making the view can panic") {
					continue
				}
				dir := strip(r.Args[len(r.Args)-1])
				failed := r.isNilOn(x, x.Results[1]) == -1
				fault := false
				for _, ev := range x.events() {
					if ev.err() != nil && types.Identical(ev.err().Typ, errorType) && r.isNilOn(x, ev.err()) != 1 {
						fault = true
						c.Check(failed, r, x, ev, "errors", "the view is made although this call failed")
					}
					if strings.HasPrefix(ev.Callee, "os.") {
						c.Check(k == "dir" && strip(ev.arg(0)) == dir, r, x, ev, "files", "something else than the cache directory is changed ("+label+")")
					}
				}
				if k == "other" {
					c.Check(failed, r, x, nil, "unknown kind", "an unsupported kind of cache is accepted")
					continue
				}
				if failed {
					c.Check(fault, r, x, nil, "supported kind", "a supported kind of cache is refused ("+label+")")
					continue
				}
				ok++
				v := strip(x.Results[0])
				if k != "" {
					if !c.Check(resOf(v, 0, aferoPkg+"NewCacheOnReadFs"), r, x, nil, "cached", "reading is not cached ("+label+")") {
						continue
					}
					layer := strip(v.Ev.arg(1))
					if k == "memory" {
						c.Check(resOf(layer, 0, aferoPkg+"NewMemMapFs"), r, x, v.Ev, "cache layer", "the cache is not a new one in memory")
					} else {
						c.Check(resOf(layer, 0, aferoPkg+"NewBasePathFs") && strip(layer.Ev.arg(1)) == dir, r, x, v.Ev, "cache layer", "the cache is not confined to its directory")
					}
					v = strip(v.Ev.arg(0))
				}
				base := strip(r.Args[0])
				isRoot := root == "" || root == "." || root == "/" || root == "./"
				based := func(t *Term) bool {
					return resOf(t, 0, aferoPkg+"NewBasePathFs") && strip(t.Ev.arg(0)) == base && t.Ev.arg(1).isStr() && t.Ev.arg(1).Name == root
				}
				if isRoot {
					c.Check(v == base, r, x, nil, "view", "a filesystem whose root is the root is not shown as it is ("+label+")")
				} else {
					c.Check(based(v), r, x, nil, "view", "a filesystem whose root is a directory is not shown from there ("+label+")")
				}
			}
			if k != "other" {
				c.Check(ok > 0, r, nil, nil, "supported kind", "a supported kind of cache cannot be made ("+label+")")
			}
		}
	}
}

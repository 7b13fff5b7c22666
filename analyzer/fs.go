package main

import (
	"archive/tar"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- a filesystem over a described index --------------------------------
//
// The methods of STFS are analysed with everything inlined down to the index
// interface; what the index answers follows a described tree (a world). Path
// components are symbols, so a case stands for every choice of names.

const (
	fsPkg  = "pkg/fs"
	opsRcv = "(*pkg/operations.Operations)."
)

// worldInline keeps the operations, the indexer and the pipeline opaque.
func worldInline(fn *ssa.Function) bool {
	switch fnPkg(fn) {
	case "pkg/operations", "pkg/recovery", "pkg/encryption", "pkg/signature", "pkg/compression", "pkg/persisters":
		return false
	}
	return defaultInline(fn)
}

type world struct {
	nodes   map[string]string   // "P/N" -> "file", "dir", "dir/" (stored with a trailing slash)
	kids    map[string][]string // names listed in a directory
	creates []string            // what the first, second … Archive call creates
	kind    string              // … and what kind that is
	fail    int                 // the lookup (counted from 1) which fails
	e       *Engine
	// listings are cut off at the limit that is given
	obeyLimit bool
}

type fsCase struct {
	label   string
	world   world
	args    []any // string: spelled path, int64: constant, nil: anything
	ro      int   // 0 writable, 1 read-only
	implies bool
}

// spell builds a path from a pattern: capital letters are name symbols.
func (e *Engine) spell(p string) *Term {
	var out []*Term
	for len(p) > 0 {
		i := 0
		for i < len(p) && p[i] >= 'A' && p[i] <= 'Z' {
			i++
		}
		if i > 0 {
			out = append(out, e.relSym(p[:i]))
			p = p[i:]
			continue
		}
		for i < len(p) && !(p[i] >= 'A' && p[i] <= 'Z') {
			i++
		}
		out = append(out, e.mkStr(p[:i]))
		p = p[i:]
	}
	return e.cat(out...)
}

// unspell is the pattern of a path built from constants and name symbols.
func unspell(t *Term) (string, bool) {
	t = strip(t)
	if t == nil {
		return "", false
	}
	var sb strings.Builder
	for _, p := range parts(t) {
		switch {
		case isRel(p):
			sb.WriteString(p.Name[len("rel:"):])
		case p.isStr():
			sb.WriteString(p.Name)
		default:
			return "", false
		}
	}
	return sb.String(), true
}

// canon is the entry a path designates; slash: spelled with a trailing slash.
func canon(t *Term) (name string, slash, ok bool) {
	s, ok := unspell(t)
	if !ok {
		return "", false, false
	}
	switch s {
	case "", ".", "/", "./":
		return "", false, true
	}
	if strings.HasPrefix(s, "./") {
		s = s[2:]
	} else if strings.HasPrefix(s, "/") {
		s = s[1:]
	}
	if strings.HasSuffix(s, "/") {
		return s[:len(s)-1], true, true
	}
	return s, false, true
}

func designates(t *Term, name string) bool {
	n, _, ok := canon(t)
	return ok && n == name
}

// at is the kind of the entry at the end of a trace.
func (w *world) at(evs []*Event, name string) string {
	if name == "" {
		return "dir"
	}
	k := w.nodes[name]
	n := 0
	for _, ev := range evs {
		switch ev.Callee {
		case opsRcv + "Archive":
			if n < len(w.creates) && w.creates[n] == name {
				k = w.kind
			}
			n++
		case opsRcv + "Delete":
			if d, _, ok := canon(ev.arg(1)); ok && (name == d || strings.HasPrefix(name, d+"/")) {
				k = ""
			}
		}
	}
	return k
}

func isLookup(ev *Event) bool {
	return ev.is(mp+"GetHeader", mp+"GetHeaderByLinkname", mp+"GetHeaderDirectChildren", mp+"GetRootPath", mp+"GetHeaderChildren", mp+"GetHeaders")
}

func (e *Engine) gerr(name string) *Term { return e.tt.mk("gval", name, errorType) }

func (w *world) override(ev *Event, slot int, typ types.Type) *Term {
	e := w.e
	if !isLookup(ev) || slot >= 100 {
		return nil
	}
	var evs []*Event
	if e.cur.trace != nil {
		evs = e.cur.trace.Events()
	}
	isErr := types.Identical(typ, errorType)
	if w.fail > 0 && count(evs, isLookup) == w.fail-1 {
		if isErr {
			return e.gerr("the index failed")
		}
		return nil
	}
	if ev.is(mp + "GetRootPath") {
		if isErr {
			return e.mkNil()
		}
		return e.mkStr("/")
	}
	name, slash, ok := canon(ev.arg(2))
	if !ok {
		return nil
	}
	switch ev.Callee {
	case mp + "GetHeader":
		k := w.at(evs, name)
		found := k != "" && (name == "" || slash == (k == "dir/"))
		if isErr {
			if found {
				return e.mkNil()
			}
			return e.gerr("database/sql.ErrNoRows")
		}
		if found {
			return e.sym("row:"+ev.key, typ)
		}
		return e.mkNil()
	case mp + "GetHeaderByLinkname":
		if isErr {
			return e.gerr("database/sql.ErrNoRows")
		}
		return e.mkNil()
	case mp + "GetHeaderDirectChildren":
		if isErr {
			return e.mkNil()
		}
		els := []*Term{e.mkNil()}
		for i := range w.kids[name] {
			if l := ev.arg(3); w.obeyLimit && l.isInt() && l.intVal() > 0 && i >= int(l.intVal()) {
				break
			}
			els = append(els, e.sym(fmt.Sprintf("row%d:%s", i, ev.key), sliceElem(typ)))
		}
		if len(els) == 1 {
			return e.tt.mk("app", "append", typ, e.mkNil())
		}
		return e.tt.mk("app", "append", typ, els...)
	}
	return nil
}

// fillRow gives a row its name and kind.
func (w *world) fillRow(st *State, row *Term, name, kind string) {
	e := w.e
	set := func(f string, v *Term) {
		if nv := nameVar(row.Typ, f); nv != nil {
			e.store(st, e.fieldAddr(row, nv), v)
		}
	}
	n := "/" + name
	tf := int64(tar.TypeReg)
	if strings.HasPrefix(kind, "dir") {
		tf = int64(tar.TypeDir)
	}
	if kind == "device" {
		tf = int64(tar.TypeBlock)
	}
	if kind == "dir/" {
		n += "/"
	}
	set("Name", e.spell(n))
	set("Linkname", e.mkStr(""))
	set("Typeflag", e.mkInt(tf))
	set("Paxrecords", e.app("json", e.sym("pax:"+row.Name, nil)))
	e.assume(st, e.eq(row, e.mkNil()), false)
}

func (w *world) observe(ev *Event, st *State) {
	if !isLookup(ev) || len(ev.Results) == 0 {
		return
	}
	name, _, ok := canon(ev.arg(2))
	if !ok {
		return
	}
	switch ev.Callee {
	case mp + "GetHeader":
		if r := ev.Results[0]; r.Op == "sym" && strings.HasPrefix(r.Name, "row:") {
			w.fillRow(st, r, name, w.at(st.trace.Events(), name))
		}
	case mp + "GetHeaderDirectChildren":
		if els, ok := w.e.elemsOf(ev.Results[0]); ok {
			for i, r := range els {
				if i < len(w.kids[name]) {
					full := w.kids[name][i]
					if name != "" {
						full = name + "/" + full
					}
					k := w.nodes[full]
					if k == "" {
						k = "file"
					}
					w.fillRow(st, r, full, k)
				}
			}
		}
	}
}

// ---- roles of fields --------------------------------------------------------

// roles maps the parameters of a constructor to the fields they are stored in.
func (c *Ctx) roles(ctor string) map[int]*types.Var {
	out := map[int]*types.Var{}
	r := c.Run(fsPkg, "", ctor, RunOpt{Key: "roles"})
	if r == nil {
		return out
	}
	for _, x := range r.returns() {
		p := strip(x.Results[0])
		s := derefStruct(p.Typ)
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			v := strip(r.E.load(x.St, r.E.fieldAddr(p, s.Field(i)), s.Field(i).Type()))
			for j, a := range r.Args {
				if v == strip(a) {
					out[j] = s.Field(i)
				}
			}
		}
	}
	return out
}

// role finds the field a constructor parameter of that type (and, when several
// have it, that position among them) ends up in.
func (c *Ctx) role(ctor string, idx int) *types.Var {
	v := c.roles(ctor)[idx]
	if v == nil {
		c.Fail(fsPkg+"."+ctor, fmt.Sprintf("parameter %d", idx), "?", "the constructor does not keep this parameter", nil)
	}
	return v
}

// ---- running a case -----------------------------------------------------------

func (c *Ctx) fsRun(method string, fc *fsCase) *Run {
	roV, impV := c.role("NewSTFS", 5), c.role("NewSTFS", 6)
	if roV == nil || impV == nil {
		return nil
	}
	w := &fc.world
	r := c.Run(fsPkg, "STFS", method, RunOpt{Visits: 6, Inline: worldInline, MaxItems: 400000,
		Setup: func(r *Run, st *State) {
			w.e = r.E
			r.E.relDiffer = true
			r.E.Override = w.override
			r.E.store(st, r.E.fieldAddr(r.Args[0], roV), r.E.mkBool(fc.ro == 1))
			r.E.store(st, r.E.fieldAddr(r.Args[0], impV), r.E.mkBool(fc.implies))
			for i, a := range fc.args {
				if i+1 >= len(r.Args) {
					break
				}
				switch v := a.(type) {
				case string:
					r.Args[i+1] = r.E.spell(v)
				case int64:
					r.Args[i+1] = r.E.mkInt(v)
				}
			}
		},
		Observe: func(e *Engine, ev *Event, st *State) { w.observe(ev, st) },
	})
	return r
}

// isEffect: the call can change the tape or the index.
func isEffect(ev *Event) bool {
	return ev.is(opsRcv+"Archive", opsRcv+"Update", opsRcv+"Delete", opsRcv+"Move", opsRcv+"Initialize",
		mp+"UpsertHeader", mp+"UpdateHeaderMetadata", mp+"MoveHeader", mp+"DeleteHeader", mp+"PurgeAllHeaders",
		evGetWriter, "pkg/recovery.Index")
}

func effects(x *Exit) []*Event {
	var out []*Event
	for _, ev := range x.events() {
		if isEffect(ev) {
			out = append(out, ev)
		}
	}
	return out
}

// undecided: the index was asked for something that cannot be spelled out.
func (w *world) undecided(x *Exit) bool {
	for _, ev := range x.events() {
		if ev.is(mp+"GetHeader", mp+"GetHeaderByLinkname", mp+"GetHeaderDirectChildren") {
			if _, _, ok := canon(ev.arg(2)); !ok {
				return true
			}
		}
	}
	return false
}

// faults are the calls which failed on this path for a reason outside of the
// described index.
func (r *Run) faults(x *Exit) []*Event {
	var out []*Event
	for _, ev := range x.events() {
		er := ev.err()
		if er == nil || ev.Kind != "call" || r.isNilOn(x, er) != -1 {
			continue
		}
		if isLookup(ev) && er.Op == "gval" && er.Name == "database/sql.ErrNoRows" {
			continue
		}
		out = append(out, ev)
	}
	return out
}

// effect is one expected change.
type effect struct {
	op    string
	check func(r *Run, x *Exit, ev *Event) string
}

type outcome struct {
	mayFail []string // the call may also fail, with such an error
	fails   bool
	class   []string // sentinels, any of which the error must be
	effects []effect
	result  func(r *Run, x *Exit) string
	// ignore: an error of this effect is no failure of the call
	lenient func(r *Run, x *Exit) bool
}

var (
	eNotExist = []string{"os.ErrNotExist", "io/fs.ErrNotExist"}
	eExist    = []string{"os.ErrExist", "io/fs.ErrExist"}
	ePerm     = []string{"os.ErrPermission", "io/fs.ErrPermission"}
	eInvalid  = []string{"os.ErrInvalid", "io/fs.ErrInvalid"}
)

func (r *Run) isSentinel(x *Exit, t *Term, names []string) bool {
	t = r.E.rep(x.St, strip(t))
	return t.containsDeep(func(s *Term) bool {
		if s.Op != "gval" {
			return false
		}
		for _, n := range names {
			if s.Name == n || strings.HasSuffix(s.Name, "/"+n) {
				return true
			}
		}
		return false
	})
}

// judge compares every way the call can end in the described world with what
// the reference filesystem does.
func (c *Ctx) judge(r *Run, fc *fsCase, want outcome) {
	if r == nil {
		return
	}
	w := &fc.world
	site := r.Fn.Name()
	decided := 0
	cut := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			cut = true
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "panic", "the call crashes the process ("+fc.label+")") {
			continue
		}
		if w.undecided(x) {
			continue
		}
		decided++
		ret := r.errResult(x)
		effs := effects(x)
		fs := r.faults(x)
		retNil := r.isNilOn(x, ret)
		if len(fs) > 0 {
			if want.lenient != nil && want.lenient(r, x) {
				continue
			}
			c.Check(retNil == -1, r, x, fs[0], "error reported", "the call reports success although "+fs[0].Callee+" failed ("+fc.label+")")
			for i, ev := range effs {
				c.Check(!want.fails && i < len(want.effects), r, x, ev, site+": no change", "a call that fails changes something")
			}
			continue
		}
		if want.fails {
			if !c.Check(!r.mayOk(x), r, x, nil, site+": fails", "the call must fail ("+fc.label+") but can succeed") {
				continue
			}
			for _, ev := range effs {
				c.Check(false, r, x, ev, site+": no change", "a call that fails changes something")
			}
			if len(want.class) > 0 {
				c.Check(r.isSentinel(x, ret, want.class), r, x, nil, site+": error", "the error is not "+want.class[0]+" ("+fc.label+")")
			}
			continue
		}
		if want.mayFail != nil && retNil == -1 {
			c.Check(r.isSentinel(x, ret, want.mayFail), r, x, nil, site+": error", "the error is not "+want.mayFail[0]+" ("+fc.label+")")
			for _, ev := range effs {
				c.Check(false, r, x, ev, site+": no change", "a call that fails changes something")
			}
			continue
		}
		// the call succeeds: its error is nil, or what its last change returned
		ok := ret == nil || retNil == 1
		if !ok && retNil == 0 {
			for _, ev := range effs {
				if ev.err() == strip(ret) || ev.err() == ret {
					ok = true
				}
			}
		}
		if !c.Check(ok, r, x, nil, site+": succeeds", "the call must succeed ("+fc.label+") but fails") {
			continue
		}
		for i := 0; i < len(effs) || i < len(want.effects); i++ {
			if i >= len(want.effects) {
				c.Check(false, r, x, effs[i], site+": nothing else", "the call changes something more than it should ("+fc.label+")")
				continue
			}
			if i >= len(effs) {
				c.Check(false, r, x, nil, site+": "+want.effects[i].op, "the call succeeds without doing what it should ("+fc.label+")")
				continue
			}
			ev := effs[i]
			if !c.Check(ev.Callee == want.effects[i].op, r, x, ev, site+": "+want.effects[i].op, "the call does something else than it should ("+fc.label+")") {
				continue
			}
			if er := ev.err(); er != nil && er != ret {
				c.Check(r.isNilOn(x, er) == 1 || want.lenient != nil && want.lenient(r, x), r, x, ev, "error of "+ev.Callee, "the error of the change is dropped")
			}
			if want.effects[i].check != nil {
				msg := want.effects[i].check(r, x, ev)
				c.Check(msg == "", r, x, ev, site+": "+want.effects[i].op+" arguments", msg+" ("+fc.label+")")
			}
		}
		if want.result != nil {
			msg := want.result(r, x)
			c.Check(msg == "", r, x, nil, site+": result", msg+" ("+fc.label+")")
		}
	}
	if decided == 0 && cut {
		c.Check(false, r, nil, nil, site+": explored", "no way through the call could be followed to its end ("+fc.label+")")
	} else if decided == 0 {
		c.Ob(r.Name, site+": undecided")
	}
}

// ---- what operations are asked to write -----------------------------------------

type fileCfg struct {
	x                      *Exit
	val                    *Term
	path, link, info, file *Term
}

// sources runs a getSrc callback twice: what it returns first, and whether it
// then ends.
func (r *Run) sources(ev *Event, i int) (first []fileCfg, msg string) {
	cl, ok := r.funcOf(ev.arg(i))
	if !ok {
		return nil, "the source callback is not a function of this call"
	}
	st := ev.St
	if st == nil {
		return nil, "the source callback is not a function of this call"
	}
	for _, x := range r.E.runFunc(st.clone(), cl.Fn, nil, cl.Args, nil, ev.Pos) {
		if x.Kind != "return" || len(x.Results) != 2 {
			if x.Kind != "cut" {
				return nil, "the source callback can panic"
			}
			continue
		}
		if r.isNilOn(x, x.Results[1]) == -1 {
			if r.isSentinel(x, x.Results[1], []string{"io.EOF"}) {
				return nil, "the source callback ends before it returned anything"
			}
			continue // a fault, passed on
		}
		v := strip(x.Results[0])
		fld := func(n string) *Term { return strip(r.E.field(v, n, nil)) }
		first = append(first, fileCfg{x: x, val: v, path: fld("Path"), link: fld("Link"), info: fld("Info"), file: fld("GetFile")})
		for _, y := range r.E.runFunc(x.St.clone(), cl.Fn, nil, cl.Args, nil, ev.Pos) {
			if y.Kind != "return" || len(y.Results) != 2 {
				continue
			}
			if !(r.isNilOn(y, y.Results[1]) == -1 && r.isSentinel(y, y.Results[1], []string{"io.EOF"})) {
				return nil, "the source callback does not end after one entry"
			}
		}
	}
	if len(first) == 0 {
		return nil, "the source callback never returns an entry"
	}
	return first, ""
}

// infoField is an attribute of the file information handed to an operation.
func (r *Run) infoField(info *Term, name string) *Term {
	info = strip(info)
	if info.isApp("FileInfo") {
		return strip(r.E.field(info.Args[0], name, nil))
	}
	return nil
}

// boolArg: constant argument.
func boolArg(ev *Event, i int, want bool) bool {
	a := ev.arg(i)
	return a != nil && a.isBool() && a.isTrue() == want
}

func (r *Run) onWriteOps(c *Ctx, ev *Event) bool {
	v := c.role("NewSTFS", 1)
	if v == nil {
		return true
	}
	_, f, b := fieldOf(ev.arg(0))
	return f == v.Name() && rootOf(b) == strip(r.Args[0])
}

// creating: an Archive call that makes one entry.
func creating(c *Ctx, name string, kind byte, perm func(r *Run) *Term) effect {
	return effect{opsRcv + "Archive", func(r *Run, x *Exit, ev *Event) string {
		if !r.onWriteOps(c, ev) {
			return "the entry is not created through the write operations"
		}
		if !boolArg(ev, 3, false) {
			return "creating an entry may overwrite the tape"
		}
		if !boolArg(ev, 4, false) {
			return "creating an entry is treated as initializing"
		}
		src, msg := r.sources(ev, 1)
		if msg != "" {
			return msg
		}
		for _, s := range src {
			if m := r.createdEntry(x, s, name, kind, perm(r)); m != "" {
				return m
			}
		}
		return ""
	}}
}

func (r *Run) createdEntry(x *Exit, s fileCfg, name string, kind byte, perm *Term) string {
	if n, _, ok := canon(s.path); !ok || n != name {
		if !ok {
			return ""
		}
		return "another entry than the requested one is created: " + s.path.String()
	}
	if !(s.link.isStr() && s.link.Name == "") {
		return "the new entry is given a link target"
	}
	tf := r.infoField(s.info, "Typeflag")
	if tf == nil {
		return ""
	}
	if !(tf.isInt() && tf.intVal() == int64(kind)) {
		return "the new entry has the wrong kind"
	}
	if n := r.infoField(s.info, "Name"); !designates(n, name) {
		return "the new entry's information carries another name"
	}
	if l := r.infoField(s.info, "Linkname"); !(l.isStr() && l.Name == "") && l.Op != "zero" {
		return "the new entry is given a link target"
	}
	if perm != nil {
		if m := r.infoField(s.info, "Mode"); strip(m) != strip(perm) {
			return "the new entry does not get the requested permissions"
		}
	}
	if m := r.infoField(s.info, "ModTime"); m == nil || m.Op == "zero" {
		return "the new entry gets no modification time"
	}
	if z := r.infoField(s.info, "Size"); !(z.isInt() && z.intVal() == 0) && z.Op != "zero" {
		return "the new entry is not empty"
	}
	return ""
}

// ---- the cases --------------------------------------------------------------------

// spellOf returns equivalent spellings of an entry.
func spellOf(p string) []string { return []string{"/" + p, p, "./" + p, "/" + p + "/"} }

// parentsOf the named entry P/N: how P can be, and what creating in it does.
type parentCase struct {
	kind string
	ok   bool
	errs []string
}

func parentCases() []parentCase {
	return []parentCase{{"dir", true, nil}, {"dir/", true, nil}, {"", false, eNotExist}, {"file", false, nil}, {"device", false, nil}}
}

func fsMkdir(c *Ctx) {
	for _, sp := range spellOf("P/N") {
		for _, p := range parentCases() {
			fc := &fsCase{label: fmt.Sprintf("%q, parent %q", sp, p.kind), args: []any{sp}, world: world{nodes: map[string]string{"P": p.kind}, creates: []string{"P/N"}, kind: "dir"}}
			want := outcome{fails: !p.ok, class: p.errs, effects: []effect{creating(c, "P/N", tar.TypeDir, func(r *Run) *Term { return r.param(1) })}}
			c.judge(c.fsRun("Mkdir", fc), fc, want)
		}
		for _, k := range []string{"dir", "dir/", "file"} {
			fc := &fsCase{label: fmt.Sprintf("%q exists as %s", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}}}
			c.judge(c.fsRun("Mkdir", fc), fc, outcome{fails: true, class: eExist})
		}
		// the parent cannot be looked up
		fc := &fsCase{label: fmt.Sprintf("%q, index failure", sp), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir"}, fail: 1}}
		c.judge(c.fsRun("Mkdir", fc), fc, outcome{fails: true})
	}
	for _, sp := range []string{"/N", "N", "./N"} {
		fc := &fsCase{label: fmt.Sprintf("%q in the root", sp), args: []any{sp}, world: world{creates: []string{"N"}, kind: "dir"}}
		c.judge(c.fsRun("Mkdir", fc), fc, outcome{effects: []effect{creating(c, "N", tar.TypeDir, func(r *Run) *Term { return r.param(1) })}})
	}
	for _, sp := range []string{"/", ".", "./", "", "//"} {
		fc := &fsCase{label: fmt.Sprintf("root as %q", sp), args: []any{sp}}
		c.judge(c.fsRun("Mkdir", fc), fc, outcome{fails: true, class: eExist})
	}
}

func fsMkdirAll(c *Ctx) {
	all := []string{"A", "A/B", "A/B/C"}
	for _, sp := range spellOf("A/B/C") {
		for have := 0; have <= 3; have++ {
			nodes := map[string]string{}
			for i := 0; i < have; i++ {
				nodes[all[i]] = "dir"
			}
			var eff []effect
			for _, n := range all[have:] {
				eff = append(eff, creating(c, n, tar.TypeDir, func(r *Run) *Term { return r.param(1) }))
			}
			fc := &fsCase{label: fmt.Sprintf("%q, %d components exist", sp, have), args: []any{sp}, world: world{nodes: nodes, creates: all[have:], kind: "dir"}}
			c.judge(c.fsRun("MkdirAll", fc), fc, outcome{effects: eff})
			if have == 0 {
				continue
			}
			for _, kind := range []string{"file", "device"} {
				file := map[string]string{}
				for k, v := range nodes {
					file[k] = v
				}
				file[all[have-1]] = kind
				fc = &fsCase{label: fmt.Sprintf("%q, component %d is a %s", sp, have, kind), args: []any{sp}, world: world{nodes: file}}
				c.judge(c.fsRun("MkdirAll", fc), fc, outcome{fails: true})
			}
			slash := map[string]string{}
			for k := range nodes {
				slash[k] = "dir/"
			}
			fc = &fsCase{label: fmt.Sprintf("%q, %d components exist with trailing slashes", sp, have), args: []any{sp}, world: world{nodes: slash, creates: all[have:], kind: "dir"}}
			c.judge(c.fsRun("MkdirAll", fc), fc, outcome{effects: eff})
			fc = &fsCase{label: fmt.Sprintf("%q, index failure", sp), args: []any{sp}, world: world{nodes: nodes, fail: have}}
			c.judge(c.fsRun("MkdirAll", fc), fc, outcome{fails: true})
		}
	}
	for _, sp := range []string{"/", ".", "./"} {
		fc := &fsCase{label: fmt.Sprintf("root as %q", sp), args: []any{sp}}
		c.judge(c.fsRun("MkdirAll", fc), fc, outcome{})
	}
}

func deleting(c *Ctx, name string) effect {
	return effect{opsRcv + "Delete", func(r *Run, x *Exit, ev *Event) string {
		if !r.onWriteOps(c, ev) {
			return "the entry is not removed through the write operations"
		}
		if n, _, ok := canon(ev.arg(1)); ok && n != name {
			return "another entry than the requested one is removed"
		}
		return ""
	}}
}

func fsRemove(c *Ctx) {
	for _, sp := range spellOf("P/N") {
		for _, k := range []string{"file", "dir", "dir/", ""} {
			fc := &fsCase{label: fmt.Sprintf("%q is %q", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}}}
			want := outcome{effects: []effect{deleting(c, "P/N")}}
			if k == "" {
				want = outcome{fails: true, class: eNotExist}
			}
			c.judge(c.fsRun("Remove", fc), fc, want)
			if strings.HasPrefix(k, "dir") {
				for n := 1; n <= 2; n++ {
					fc = &fsCase{label: fmt.Sprintf("%q is %q with %d entries", sp, k, n), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}, kids: map[string][]string{"P/N": []string{"X", "Y"}[:n]}}}
					c.judge(c.fsRun("Remove", fc), fc, outcome{fails: true})
				}
				fc = &fsCase{label: fmt.Sprintf("%q is %q, listing fails", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}, fail: map[string]int{"dir": 2, "dir/": 3}[k]}}
				c.judge(c.fsRun("Remove", fc), fc, outcome{fails: true})
			}
			fc = &fsCase{label: fmt.Sprintf("%q is %q, index failure", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}, fail: 1}}
			c.judge(c.fsRun("Remove", fc), fc, outcome{fails: true})

			fc = &fsCase{label: fmt.Sprintf("%q is %q", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}, kids: map[string][]string{"P/N": {"X"}}}}
			c.judge(c.fsRun("RemoveAll", fc), fc, outcome{effects: []effect{deleting(c, "P/N")}, lenient: func(r *Run, x *Exit) bool {
				// nothing to remove is not an error
				d := find(x.events(), named(opsRcv+"Delete"))
				return d != nil && r.fact(x, r.E.eq(d.err(), r.E.gerr("database/sql.ErrNoRows"))) == 1
			}})
		}
	}
}

func moving(c *Ctx, from, to string) effect {
	return effect{opsRcv + "Move", func(r *Run, x *Exit, ev *Event) string {
		if !r.onWriteOps(c, ev) {
			return "the entry is not moved through the write operations"
		}
		if n, _, ok := canon(ev.arg(1)); ok && n != from {
			return "another entry than the requested one is moved"
		}
		if n, _, ok := canon(ev.arg(2)); ok && n != to {
			return "the entry is not moved to the requested name"
		}
		return ""
	}}
}

func fsRename(c *Ctx) {
	type sc struct {
		old, new string
		nodes    map[string]string
		kids     map[string][]string
		want     outcome
	}
	n := func(kv ...string) map[string]string {
		m := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	mv := outcome{effects: []effect{moving(c, "P/N", "Q/M")}}
	repl := outcome{effects: []effect{deleting(c, "Q/M"), moving(c, "P/N", "Q/M")}}
	cases := []sc{
		{"P/N", "Q/M", n("P", "dir", "Q", "dir"), nil, outcome{fails: true, class: eNotExist}},
		{"P/N", "P/N", n("P", "dir"), nil, outcome{fails: true, class: eNotExist}},
	}
	for _, k := range []string{"file", "dir", "dir/"} {
		cases = append(cases,
			sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir"), nil, mv},
			sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir/"), nil, mv},
			sc{"P/N", "Q/M", n("P", "dir", "P/N", k), nil, outcome{fails: true, class: eNotExist}},
			sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "file"), nil, outcome{fails: true}},
			sc{"P/N", "P/M", n("P", "dir", "P/N", k), nil, outcome{effects: []effect{moving(c, "P/N", "P/M")}}},
			sc{"P/N", "M", n("P", "dir", "P/N", k), nil, outcome{effects: []effect{moving(c, "P/N", "M")}}},
			sc{"P/N", "P/N", n("P", "dir", "P/N", k), nil, outcome{}},
		)
		if k != "file" {
			cases = append(cases,
				sc{"P/N", "P/N/M", n("P", "dir", "P/N", k), nil, outcome{fails: true}},
				sc{"P/N", "P/N/X/M", n("P", "dir", "P/N", k, "P/N/X", "dir"), nil, outcome{fails: true}},
				sc{"P/N", "P/NM", n("P", "dir", "P/N", k), nil, outcome{effects: []effect{moving(c, "P/N", "P/NM")}}},
				sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir", "Q/M", "dir"), nil, repl},
				sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir", "Q/M", "dir"), map[string][]string{"Q/M": {"X"}}, outcome{fails: true}},
				sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir", "Q/M", "file"), nil, outcome{fails: true}},
			)
		} else {
			cases = append(cases,
				sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir", "Q/M", "dir"), nil, outcome{fails: true}},
				sc{"P/N", "Q/M", n("P", "dir", "P/N", k, "Q", "dir", "Q/M", "file"), nil, repl},
				sc{"P/N", "P/N/M", n("P", "dir", "P/N", k), nil, outcome{fails: true}},
			)
		}
	}
	for _, s := range cases {
		for _, so := range []string{"/" + s.old, s.old, "./" + s.old} {
			for _, sn := range []string{"/" + s.new, s.new, "./" + s.new, "/" + s.new + "/"} {
				nodes := map[string]string{}
				for k, v := range s.nodes {
					nodes[k] = v
				}
				fc := &fsCase{label: fmt.Sprintf("%q to %q in %v %v", so, sn, short2(nodes), s.kids), args: []any{so, sn}, world: world{nodes: nodes, kids: s.kids}}
				c.judge(c.fsRun("Rename", fc), fc, s.want)
			}
		}
	}
	for _, ro := range []string{"/", ".", "./"} {
		fc := &fsCase{label: fmt.Sprintf("root as %q", ro), args: []any{ro, "/Q"}}
		c.judge(c.fsRun("Rename", fc), fc, outcome{fails: true})
	}
	for i := 1; i <= 4; i++ {
		fc := &fsCase{label: fmt.Sprintf("index failure %d", i), args: []any{"/P/N", "/Q/M"}, world: world{nodes: n("P", "dir", "P/N", "file", "Q", "dir", "Q/M", "file"), fail: i}}
		c.judge(c.fsRun("Rename", fc), fc, outcome{fails: true})
	}
}

func short2(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+":"+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// ---- attributes ---------------------------------------------------------------------

// rowOf finds the row which a term was read from.
func rowOf(t *Term) *Term {
	var row *Term
	t.containsDeep(func(s *Term) bool {
		if s.Op == "sym" && strings.HasPrefix(strings.TrimLeft(strings.TrimPrefix(s.Name, "row"), "0123456789"), ":") && strings.HasPrefix(s.Name, "row") {
			row = s
		}
		return false
	})
	return row
}

// updating: an Update call that stores the entry's own header with some changed
// attributes.
func updating(c *Ctx, name string, changed func(r *Run) map[string]*Term) effect {
	return effect{opsRcv + "Update", func(r *Run, x *Exit, ev *Event) string {
		if !r.onWriteOps(c, ev) {
			return "the entry is not updated through the write operations"
		}
		if !boolArg(ev, 3, false) {
			return "changing attributes replaces the content"
		}
		src, msg := r.sources(ev, 1)
		if msg != "" {
			return msg
		}
		for _, s := range src {
			if n, _, ok := canon(s.path); ok && n != name {
				return "another entry than the requested one is updated"
			}
			if !(s.link.isStr() && s.link.Name == "") {
				return "the entry is given a link target"
			}
			if !strip(s.info).isApp("FileInfo") {
				continue
			}
			ch := changed(r)
			hs := derefStruct(c.tarHeaderPtr())
			for i := 0; hs != nil && i < hs.NumFields(); i++ {
				f := hs.Field(i).Name()
				got := r.infoField(s.info, f)
				if want, ok := ch[f]; ok {
					if got != strip(want) {
						return "attribute " + f + " is not set to the requested value"
					}
					continue
				}
				if got == nil || f == "Xattrs" || f == "Format" || f == "PAXRecords" {
					continue
				}
				switch f {
				case "Name":
					if !designates(got, name) {
						return "the entry is updated under another name"
					}
					continue
				case "Linkname", "Typeflag":
					if got.constLike() {
						continue
					}
				}
				row := rowOf(got)
				if row == nil {
					return "attribute " + f + " is changed although only other attributes were to be changed"
				}
				if _, ff, _ := fieldOf(unconv(got)); ff != "" && !strings.EqualFold(ff, f) && !strings.EqualFold(ff, dbField(f)) {
					return "attribute " + f + " is replaced by " + ff
				}
			}
		}
		return ""
	}}
}

func dbField(f string) string { return f }

func (c *Ctx) tarHeaderPtr() types.Type {
	for _, p := range c.P.Prog.AllPackages() {
		if p.Pkg.Path() == "archive/tar" {
			return types.NewPointer(p.Pkg.Scope().Lookup("Header").Type())
		}
	}
	return nil
}

func fsAttributes(c *Ctx) {
	cases := map[string]func(r *Run) map[string]*Term{
		"Chmod": func(r *Run) map[string]*Term { return map[string]*Term{"Mode": r.param(1)} },
		"Chown": func(r *Run) map[string]*Term { return map[string]*Term{"Uid": r.param(1), "Gid": r.param(2)} },
		"Chtimes": func(r *Run) map[string]*Term {
			return map[string]*Term{"AccessTime": r.param(1), "ModTime": r.param(2)}
		},
	}
	for _, m := range []string{"Chmod", "Chown", "Chtimes"} {
		for _, sp := range spellOf("P/N") {
			for _, k := range []string{"", "file", "dir", "dir/"} {
				fc := &fsCase{label: fmt.Sprintf("%q is %q", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}}}
				want := outcome{effects: []effect{updating(c, "P/N", cases[m])}}
				if k == "" {
					want = outcome{fails: true, class: eNotExist}
				}
				c.judge(c.fsRun(m, fc), fc, want)
			}
			fc := &fsCase{label: fmt.Sprintf("%q, index failure", sp), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": "file"}, fail: 1}}
			c.judge(c.fsRun(m, fc), fc, outcome{fails: true})
		}
		fc := &fsCase{label: "root", args: []any{"/"}}
		c.judge(c.fsRun(m, fc), fc, outcome{effects: []effect{updating(c, "", cases[m])}})
	}
}

var _ = os.O_RDONLY

// fsTree: no call takes the parent of an entry away or gives it one that is
// missing or no directory. (What Mkdir, MkdirAll and OpenFile do is decided by
// their own rules.)
func fsTree(c *Ctx) {
	none := func(method string, fc *fsCase) {
		r := c.fsRun(method, fc)
		if r == nil {
			return
		}
		for _, x := range r.Exits {
			if x.Kind != "return" || fc.world.undecided(x) {
				continue
			}
			for _, ev := range effects(x) {
				c.Check(false, r, x, ev, method+": tree", "an entry is left without a parent that is a directory ("+fc.label+")")
			}
			c.Ob(r.Name, method+" "+fc.label)
		}
	}
	for _, sp := range spellOf("P/N") {
		for _, k := range []string{"dir", "dir/"} {
			for n := 1; n <= 2; n++ {
				none("Remove", &fsCase{label: fmt.Sprintf("%q has %d entries", sp, n), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}, kids: map[string][]string{"P/N": []string{"X", "Y"}[:n]}}})
			}
		}
	}
	for _, k := range []string{"file", "dir", "dir/"} {
		for _, sn := range []string{"/Q/M", "Q/M", "./Q/M", "/Q/M/"} {
			for _, q := range []string{"", "file"} {
				nodes := map[string]string{"P": "dir", "P/N": k}
				if q != "" {
					nodes["Q"] = q
				}
				none("Rename", &fsCase{label: fmt.Sprintf("a %s to %q, parent %q", k, sn, q), args: []any{"/P/N", sn}, world: world{nodes: nodes}})
			}
		}
		for _, sn := range []string{"/P/N/M", "P/N/M", "/P/N/X/M"} {
			nodes := map[string]string{"P": "dir", "P/N": k}
			if k != "file" {
				nodes["P/N/X"] = "dir"
			}
			none("Rename", &fsCase{label: fmt.Sprintf("a %s to %q beneath itself", k, sn), args: []any{"/P/N", sn}, world: world{nodes: nodes}})
		}
	}
}

package main

import (
	"fmt"
	"go/types"
	"strings"
)

const (
	persPkg = "pkg/persisters"
	mdl     = "internal/db/sqlite/models/metadata."
	boilQ   = "github.com/volatiletech/sqlboiler/v4/queries."
	qmPkg   = "github.com/volatiletech/sqlboiler/v4/queries/qm."
)

// dbOp is one statement a persister method issues.
type dbOp struct {
	i     int
	ev    *Event
	kind  string // select, delete, update (statements), exists, insert, save (whole rows)
	where *form
	stmt  *sqlStmt
	sx    *sx
	rows  *Term // what a select yields
	many  bool
	row   *Term // the row of insert and save
	lim   *Term
	limSQ *sx
}

func isDB(ev *Event) bool {
	return strings.HasPrefix(ev.Callee, "("+mdl+"headerQuery).") || strings.HasPrefix(ev.Callee, "(*"+mdl+"Header).") || strings.HasPrefix(ev.Callee, "("+mdl+"HeaderSlice).") || strings.HasPrefix(ev.Callee, "(*"+boilQ+"Query).") || strings.HasPrefix(ev.Callee, "(*database/sql.")
}

// dbOps reads the statements of a path; the string reports one that cannot be read.
func (r *Run) dbOps(x *Exit) (ops []dbOp, bad string) {
	evs := x.events()
	for i, ev := range evs {
		if !isDB(ev) {
			continue
		}
		o := dbOp{i: i, ev: ev}
		m := ev.Callee[strings.LastIndex(ev.Callee, ".")+1:]
		switch {
		case strings.HasPrefix(ev.Callee, "("+mdl+"headerQuery)."):
			src := find(evs[:i], func(h *Event) bool { return h.is(mdl+"Headers") && ev.arg(0).isResOf(h) })
			if src == nil {
				return nil, "a query whose conditions are not known"
			}
			o.stmt = &sqlStmt{kind: "select", table: "headers"}
			f := fTrue()
			mods := src.snap(0)
			if mods != nil && !mods.isNil() {
				els, ok := r.E.elemsOf(mods)
				if !ok {
					return nil, "a query whose conditions are not known"
				}
				for _, q := range els {
					q = strip(q)
					if q.Op != "app" || !strings.HasPrefix(q.Name, qmPkg) {
						return nil, "a query modifier that is not understood: " + q.String()
					}
					var as []*Term
					if len(q.Args) > 1 {
						els, ok := r.E.elemsOf(q.Args[1])
						if !ok {
							return nil, "a condition whose arguments are not known: " + q.String()
						}
						for _, a := range els {
							as = append(as, strip(a))
						}
					}
					switch n := strings.TrimPrefix(q.Name, qmPkg); n {
					case "Where", "And", "Or":
						if !strip(q.Args[0]).isStr() {
							return nil, "a condition that is put together at run time: " + q.Args[0].String()
						}
						e, err := parseCond(strip(q.Args[0]).Name, as)
						if err != nil {
							return nil, "a condition that cannot be read: " + err.Error()
						}
						if o.sx == nil {
							o.sx = e
						} else {
							o.sx = &sx{op: "and", args: []*sx{o.sx, e}}
						}
						if n == "Or" {
							f = fOr(f, e.formula())
						} else {
							f = fAnd(f, e.formula())
						}
					case "Limit":
						o.lim = strip(q.Args[0])
					case "OrderBy", "Select":
					default:
						return nil, "a query modifier that is not understood: " + q.String()
					}
				}
			}
			o.where = f
			switch m {
			case "One":
				o.kind, o.rows = "select", ev.Results[0]
			case "All":
				o.kind, o.rows, o.many = "select", ev.Results[0], true
			case "Exists", "Count":
				o.kind = "exists"
				if !o.aboutEmptyRoot() {
					o.kind = "test"
				}
			case "DeleteAll":
				o.kind = "delete"
			default:
				return nil, "a query that is not understood: " + ev.Callee
			}
		case strings.HasPrefix(ev.Callee, "(*"+mdl+"Header)."):
			o.row = ev.snap(0)
			switch m {
			case "Insert":
				o.kind = "insert"
			case "Update":
				o.kind = "save"
			default:
				return nil, "a row change that is not understood: " + ev.Callee
			}
		case strings.HasPrefix(ev.Callee, "(*"+boilQ+"Query)."):
			src := find(evs[:i], func(h *Event) bool { return h.is(boilQ+"Raw") && ev.arg(0).isResOf(h) })
			if src == nil || !src.arg(0).isStr() {
				return nil, "a statement that is put together at run time"
			}
			var as []*Term
			if l := src.snap(1); l != nil {
				els, ok := r.E.elemsOf(l)
				if !ok {
					return nil, "a statement whose arguments are not known: " + l.String()
				}
				for _, a := range els {
					as = append(as, strip(a))
				}
			}
			st, err := parseSQL(src.arg(0).Name, as)
			if err != nil {
				return nil, "a statement that cannot be read: " + err.Error()
			}
			o.stmt, o.kind = st, st.kind
			if st.where != nil {
				o.sx = st.inline(st.where)
			}
			o.where = o.sx.formula()
			o.limSQ = st.limit
			if strings.HasPrefix(m, "Bind") {
				if st.kind != "select" {
					return nil, "a change is run as a query"
				}
				o.rows = r.E.outOf(ev, 3, nil)
				o.many = sliceElem(ptrElem(strip(ev.Args[3]).Typ)) != nil
			} else if !strings.HasPrefix(m, "Exec") || st.kind == "select" {
				return nil, "a statement that is not understood: " + ev.Callee
			}
		default:
			return nil, "direct use of the database: " + ev.Callee
		}
		if o.stmt != nil && o.stmt.table != "headers" {
			return nil, "a statement about another table: " + o.stmt.table
		}
		ops = append(ops, o)
	}
	return ops, ""
}

// ---- scenarios -------------------------------------------------------------------

// shape is how the archive's root is spelled, and how entry p is stored then.
type shape struct {
	root  string
	flag  bool // an empty root has been seen
	entry func(e *Engine, n *Term) *Term
}

func shapes() []shape {
	pre := func(p string) func(*Engine, *Term) *Term {
		return func(e *Engine, n *Term) *Term { return e.cat(e.mkStr(p), n) }
	}
	return []shape{{"/", false, pre("/")}, {".", false, pre("")}, {"./", false, pre("./")}, {"", true, pre("")}}
}

// spellings of the entry n.
var spellings = []string{"/", "", "./"}

type persOpt struct {
	visits  int
	shape   shape
	strs    []func(e *Engine, st *State) *Term // string parameters in order
	hdr     func(e *Engine) *Term              // Name of a header parameter
	observe func(e *Engine, ev *Event, st *State)
	setup   func(r *Run, st *State)
}

// rootFields finds the persister's cached root and its flag by their types.
func (c *Ctx) rootFields() (root, flag *types.Var) {
	sp := c.P.SSA[persPkg]
	if sp == nil {
		return
	}
	tn, _ := sp.Pkg.Scope().Lookup("MetadataPersister").(*types.TypeName)
	if tn == nil {
		return
	}
	s, _ := tn.Type().Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.String:
				root = s.Field(i)
			case types.Bool:
				flag = s.Field(i)
			}
		}
	}
	return
}

func (c *Ctx) persRun(method string, o persOpt) *Run {
	root, flag := c.rootFields()
	if root == nil {
		c.Fail(persPkg+".MetadataPersister", "anchor", "?", "the cached root was not found", nil)
		return nil
	}
	return c.Run(persPkg, "MetadataPersister", method, RunOpt{Visits: o.visits, MaxItems: 400000,
		Setup: func(r *Run, st *State) {
			e := r.E
			e.store(st, e.fieldAddr(r.Args[0], root), e.mkStr(o.shape.root))
			if flag != nil {
				e.store(st, e.fieldAddr(r.Args[0], flag), e.mkBool(o.shape.flag))
			}
			k := 0
			for i := 1; i < len(r.Args); i++ {
				t := r.Fn.Params[i].Type()
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && k < len(o.strs) {
					r.Args[i] = o.strs[k](e, st)
					k++
				}
				if p, ok := t.Underlying().(*types.Pointer); ok && o.hdr != nil {
					if s, ok := p.Elem().Underlying().(*types.Struct); ok {
						for j := 0; j < s.NumFields(); j++ {
							if s.Field(j).Name() == "Name" {
								e.store(st, e.fieldAddr(r.Args[i], s.Field(j)), o.hdr(e))
							}
						}
					}
				}
			}
			if o.setup != nil {
				o.setup(r, st)
			}
		},
		Observe: func(e *Engine, ev *Event, st *State) {
			if o.observe != nil {
				o.observe(e, ev, st)
			}
		}})
}

func konst(f func(e *Engine) *Term) func(*Engine, *State) *Term {
	return func(e *Engine, _ *State) *Term { return f(e) }
}

func (e *Engine) atomOf(t *Term) string {
	t = strip(t)
	if t.isStr() {
		return "'" + t.Name + "'"
	}
	return (&sx{op: "par", t: t}).key()
}

var live = fNot(eqAtom("deleted", "1"))

func (r *Run) persOps(c *Ctx, x *Exit) []dbOp {
	ops, bad := r.dbOps(x)
	if bad != "" {
		c.Fail(r.Name, "statement", c.P.At(r.Fn.Pos()), bad, c.pathOf(r, x))
		return nil
	}
	return ops
}

// notFound: the select is known to have found nothing.
func (r *Run) foundNothing(x *Exit, o dbOp) bool {
	if o.kind == "test" {
		return r.isNilOn(x, o.ev.err()) == 1 && (r.E.known(x.St, o.ev.Results[0]) == -1 || r.E.known(x.St, r.E.eq(o.ev.Results[0], r.E.mkInt(0))) == 1)
	}
	return r.E.known(x.St, r.E.eq(o.ev.err(), r.gvalT("database/sql.ErrNoRows"))) == 1
}

// foundRow: the lookup is known to have found a row.
func (r *Run) foundRow(x *Exit, o dbOp) bool {
	if r.isNilOn(x, o.ev.err()) != 1 {
		return false
	}
	return o.kind == "select" || r.E.known(x.St, o.ev.Results[0]) == 1 || r.E.known(x.St, r.E.eq(o.ev.Results[0], r.E.mkInt(0))) == -1
}

// aboutEmptyRoot: the query asks for the row named by the empty string.
func (o *dbOp) aboutEmptyRoot() bool { return o.where != nil && implied(o.where, eqAtom("name", "''")) }

// header reports how a returned header relates to the row it comes from.
func (r *Run) convertedFrom(x *Exit, hdr, row *Term, except ...string) string {
	e := r.E
	st := x.St
	if ptrElem(hdr.Typ) == nil || ptrElem(row.Typ) == nil {
		return "not a header: " + hdr.String()
	}
	var missing []string
	v := e.load(st, hdr, ptrElem(hdr.Typ))
	rv := e.load(st, row, ptrElem(row.Typ))
	for _, f := range headerColumns {
		got := strip(e.field(v, f, nil))
		want := strip(e.field(rv, dbColumn(f), nil))
		skip := false
		for _, ex := range except {
			skip = skip || ex == f
		}
		if !skip && got != want {
			missing = append(missing, f+"="+got.String())
		}
	}
	return strings.Join(missing, ",")
}

var headerColumns = []string{"Record", "Lastknownrecord", "Block", "Lastknownblock", "Deleted", "Typeflag", "Name", "Linkname", "Size", "Mode", "UID", "Gid", "Uname", "Gname", "Modtime", "Accesstime", "Changetime", "Devmajor", "Devminor", "Paxrecords", "Format"}

func dbColumn(f string) string { return f }

// dbNames: whatever way the root and the entry are spelled, every statement
// addresses exactly the entry's stored name.
func dbNames(c *Ctx) {
	root, flag := c.rootFields()
	for _, sh := range shapes() {
		for _, sp := range append(append([]string{}, spellings...), "ROOT/", "ROOT", "ROOT.", "ROOT./") {
			sh, sp := sh, sp
			spell := func(n string) func(e *Engine) *Term {
				return func(e *Engine) *Term {
					if strings.HasPrefix(sp, "ROOT") {
						return e.mkStr(sp[4:])
					}
					return e.cat(e.mkStr(sp), e.relSym(n))
				}
			}
			want := func(e *Engine, n string) *Term {
				if strings.HasPrefix(sp, "ROOT") {
					return e.mkStr(sh.root)
				}
				return sh.entry(e, e.relSym(n))
			}
			label := fmt.Sprintf("root %q, path %q", sh.root, strings.TrimPrefix(sp, "ROOT"))
			if !strings.HasPrefix(sp, "ROOT") {
				label += "+name"
			}
			for _, m := range []string{"GetHeader", "GetHeaderByLinkname", "DeleteHeader", "UpsertHeader", "UpdateHeaderMetadata", "MoveHeader"} {
				o := persOpt{shape: sh, strs: []func(*Engine, *State) *Term{konst(spell("N"))}, hdr: spell("N")}
				if m == "MoveHeader" {
					if strings.HasPrefix(sp, "ROOT") {
						continue
					}
					o.strs = []func(*Engine, *State) *Term{konst(spell("OLD")), konst(spell("NEW"))}
				}
				r := c.persRun(m, o)
				if r == nil {
					return
				}
				e := r.E
				n := 0
				for _, x := range r.Exits {
					c.Check(x.Kind == "return", r, x, nil, "panic", "the index can crash the process ("+label+")")
					if m == "UpsertHeader" && e.known(x.St, r.param(2)) == 1 {
						continue
					}
					for _, o := range r.persOps(c, x) {
						n++
						switch {
						case o.row != nil && m != "DeleteHeader":
							c.Check(strip(r.fieldT(o.row, "Name")) == want(e, "N"), r, x, o.ev, "stored name", fmt.Sprintf("an entry is stored as %s instead of %s (%s)", r.fieldT(o.row, "Name"), want(e, "N"), label))
						case o.row != nil:
						case m == "MoveHeader":
							a, b := eqAtom("name", e.atomOf(want(e, "OLD"))), eqAtom("name", e.atomOf(want(e, "NEW")))
							c.Check(implied(o.where, a) || o.kind == "delete" && implied(o.where, b), r, x, o.ev, "addressed name", "a move touches other names than the old and the new one ("+label+"): "+o.where.String())
							for _, s := range o.stmt.sets {
								if s.as == "name" {
									c.Check(s.e.t == want(e, "NEW"), r, x, o.ev, "new name", "an entry is renamed to something else than the new name ("+label+"): "+s.e.key())
								}
							}
						default:
							col := "name"
							if m == "GetHeaderByLinkname" {
								col = "linkname"
							}
							c.Check(implied(o.where, eqAtom(col, e.atomOf(want(e, "N")))), r, x, o.ev, "addressed name", fmt.Sprintf("the entry is not looked up as %s (%s): %s", want(e, "N"), label, o.where))
						}
					}
					c.Check(e.load(x.St, e.fieldAddr(r.Args[0], root), root.Type()) == e.mkStr(sh.root), r, x, nil, "cached root", "looking up a path changes the cached root ("+label+")")
					if flag != nil {
						c.Check(e.load(x.St, e.fieldAddr(r.Args[0], flag), flag.Type()) == e.mkBool(sh.flag), r, x, nil, "cached root", "looking up a path changes the cached root ("+label+")")
					}
				}
				c.Check(n > 0, r, nil, nil, "statements", "no statement is issued ("+label+")")
			}
		}
	}
}

// dbNamesForeign: names under a top-level directory are left alone, and an
// absolute path on an archive with an empty root name is not taken for the root.
func dbNamesForeign(c *Ctx) {
	root, _ := c.rootFields()
	type sc struct {
		name       string
		root       func(e *Engine) *Term
		path, want func(e *Engine) *Term
		emptyRoot  bool
	}
	R := func(e *Engine) *Term { return e.relSym("TOP") }
	N := func(e *Engine) *Term { return e.relSym("N") }
	for _, s := range []sc{
		{"top directory", R, R, R, false},
		{"below the top directory", R, func(e *Engine) *Term { return e.cat(R(e), e.mkStr("/"), N(e)) }, func(e *Engine) *Term { return e.cat(R(e), e.mkStr("/"), N(e)) }, false},
		{"absolute top directory", func(e *Engine) *Term { return e.cat(e.mkStr("/"), R(e)) }, func(e *Engine) *Term { return e.cat(e.mkStr("/"), R(e), e.mkStr("/"), N(e)) }, func(e *Engine) *Term { return e.cat(e.mkStr("/"), R(e), e.mkStr("/"), N(e)) }, false},
		{"root named by the empty string", func(e *Engine) *Term { return e.mkStr("") }, func(e *Engine) *Term { return e.cat(e.mkStr("/"), N(e)) }, N, true},
	} {
		s := s
		for _, m := range []string{"GetHeader", "DeleteHeader", "UpsertHeader", "UpdateHeaderMetadata"} {
			r := c.persRun(m, persOpt{strs: []func(*Engine, *State) *Term{konst(s.path)}, hdr: s.path,
				setup: func(r *Run, st *State) { r.E.store(st, r.E.fieldAddr(r.Args[0], root), s.root(r.E)) },
				observe: func(e *Engine, ev *Event, st *State) {
					if s.emptyRoot && ev.is("("+mdl+"headerQuery).Exists") {
						e.assume(st, ev.Results[0], true)
						e.assume(st, e.eq(ev.err(), e.mkNil()), true)
					}
				}})
			if r == nil {
				return
			}
			e := r.E
			for _, x := range r.Exits {
				if m == "UpsertHeader" && e.known(x.St, r.param(2)) == 1 {
					continue
				}
				for _, o := range r.persOps(c, x) {
					if o.kind == "exists" {
						c.Check(implied(o.where, eqAtom("name", "''")) && implied(o.where, live), r, x, o.ev, "empty root", "whether the root is named by the empty string is not decided by that live row")
						continue
					}
					if o.row != nil {
						if m != "DeleteHeader" {
							c.Check(strip(r.fieldT(o.row, "Name")) == s.want(e), r, x, o.ev, "stored name", fmt.Sprintf("an entry is stored as %s instead of %s (%s)", r.fieldT(o.row, "Name"), s.want(e), s.name))
						}
						continue
					}
					c.Check(implied(o.where, eqAtom("name", e.atomOf(s.want(e)))), r, x, o.ev, "addressed name", fmt.Sprintf("the entry is not looked up as %s (%s): %s", s.want(e), s.name, o.where))
				}
				c.Check(e.load(x.St, e.fieldAddr(r.Args[0], root), root.Type()) == s.root(e), r, x, nil, "cached root", "looking up a path changes the cached root ("+s.name+")")
			}
		}
	}
}

func slashShape() shape { return shapes()[0] }

func slashN(e *Engine) *Term { return e.cat(e.mkStr("/"), e.relSym("N")) }

// allColumns: a row is written with every column.
func (r *Run) allColumns(ev *Event) bool {
	t := ev.arg(3)
	return t != nil && strings.HasSuffix(appName(t), "boil.Infer")
}

func appName(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == "app" {
		return t.Name
	}
	if t.Op == "res" {
		return t.Ev.Callee
	}
	return ""
}

// dbRows: what the row-level methods select and write.
func dbRows(c *Ctx) {
	L := func(r *Run, v *Term, f string) *Term { return strip(r.fieldT(v, f)) }
	nameIs := func(e *Engine) *form { return eqAtom("name", e.atomOf(slashN(e))) }
	opt := func() persOpt {
		return persOpt{shape: slashShape(), strs: []func(*Engine, *State) *Term{konst(slashN)}, hdr: slashN}
	}

	// Lookups
	for _, m := range []string{"GetHeader", "GetHeaderByLinkname"} {
		r := c.persRun(m, opt())
		if r == nil {
			return
		}
		for _, x := range r.Exits {
			ops := r.persOps(c, x)
			for _, o := range ops {
				w := nameIs(r.E)
				if m != "GetHeader" {
					w = eqAtom("linkname", r.E.atomOf(slashN(r.E)))
				}
				c.Check(o.kind == "select" && equivalent(o.where, fAnd(w, live)), r, x, o.ev, "rows looked up", "a lookup does not consider exactly the live rows of that name: "+o.where.String())
			}
			if r.mayOk(x) && len(x.Results) == 2 {
				if c.Check(len(ops) > 0, r, x, nil, "looks up", "a lookup succeeds without looking at the index") {
					o := ops[len(ops)-1]
					c.Check(r.isNilOn(x, o.ev.err()) == 1, r, x, o.ev, "found", "a lookup can succeed although nothing was found")
					if bad := r.convertedFrom(x, x.Results[0], o.rows); bad != "" {
						c.Check(false, r, x, o.ev, "header", "the returned header differs from the row: "+bad)
					} else {
						c.Check(true, r, x, o.ev, "header", "")
					}
				}
			}
		}
		c.errDiscipline(r, nil)
		r.noRowsPassed(c, m)
	}

	// All live headers
	r := c.persRun("GetHeaders", opt())
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		for _, o := range r.persOps(c, x) {
			c.Check(o.kind == "select" && equivalent(o.where, live) && o.lim == nil, r, x, o.ev, "rows", "not exactly the live rows are listed: "+o.where.String())
			if r.mayOk(x) {
				r.everyRow(c, x, o.rows, x.Results[0])
			}
		}
	}
	c.errDiscipline(r, nil)

	// Upsert
	o := opt()
	o.hdr = nil
	r = c.persRun("UpsertHeader", o)
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		ops := r.persOps(c, x)
		hdr := r.E.initialOf(r.param(1))
		ini := r.fact(x, r.param(2))
		var sel *dbOp
		saved := false
		for i := range ops {
			o := ops[i]
			switch o.kind {
			case "exists":
				c.Check(sel == nil && o.where != nil, r, x, o.ev, "order", "")
			case "select", "test":
				sel = &ops[i]
				if c.Check(o.sx != nil, r, x, o.ev, "existing row", "whether the row exists is asked without a condition") {
					name := L(r, hdr, "Name")
					if ini != 1 {
						name = nil
					}
					ok := false
					for _, q := range ops {
						if q.row != nil && q.i > o.i {
							if name == nil {
								name = L(r, q.row, "Name")
							}
						}
					}
					if name != nil {
						ok = equivalent(o.where, fAnd(eqAtom("name", r.E.atomOf(name)), eqAtom("linkname", r.E.atomOf(L(r, hdr, "Linkname")))))
						c.Check(ok, r, x, o.ev, "existing row", "the existing row is not looked for by exactly its name and link name, deleted or not: "+o.where.String())
					}
				}
			case "insert", "save":
				saved = saved || o.kind == "insert" || sel != nil && r.foundRow(x, *sel) || r.hadInsert(ops[:i])
				for _, f := range headerColumns {
					got := L(r, o.row, f)
					if f == "Name" && ini != 1 {
						continue
					}
					c.Check(got == L(r, hdr, f), r, x, o.ev, "stored "+f, "the row is stored with another "+f+" than the header's: "+got.String())
				}
				c.Check(r.allColumns(o.ev), r, x, o.ev, "columns", "not all columns of the row are written")
				if o.kind == "insert" {
					c.Check(sel != nil && r.foundNothing(x, *sel), r, x, o.ev, "insert", "a row is inserted although one may exist already")
				}
				if o.kind == "save" {
					c.Check(sel != nil && (r.foundRow(x, *sel) || r.hadInsert(ops[:i])), r, x, o.ev, "update", "a row is updated that may not exist")
				}
			default:
				c.Check(false, r, x, o.ev, "statement", "storing a header changes other rows")
			}
		}
		if r.mayOk(x) {
			c.Check(saved, r, x, nil, "stored", "the call succeeds without having stored the header")
		}
	}
	c.errDiscipline(r, func(ev *Event, x *Exit) bool {
		return ev.is("("+mdl+"headerQuery).One") && r.E.known(x.St, r.E.eq(ev.err(), r.gvalT("database/sql.ErrNoRows"))) == 1 || ev.is("("+mdl+"headerQuery).Exists")
	})

	// Update
	r = c.persRun("UpdateHeaderMetadata", o)
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		hdr := r.E.initialOf(r.param(1))
		saved := false
		for _, o := range r.persOps(c, x) {
			if o.kind == "exists" {
				continue
			}
			if !c.Check(o.kind == "save", r, x, o.ev, "statement", "updating a header does something else to the index") {
				continue
			}
			saved = true
			c.Check(r.allColumns(o.ev), r, x, o.ev, "columns", "not all columns of the row are written")
			for _, f := range headerColumns {
				if f != "Name" {
					c.Check(L(r, o.row, f) == L(r, hdr, f), r, x, o.ev, "stored "+f, "the row is stored with another "+f+" than the header's: "+L(r, o.row, f).String())
				}
			}
		}
		if r.mayOk(x) {
			c.Check(saved, r, x, nil, "stored", "the call succeeds without having stored the header")
		}
	}
	c.errDiscipline(r, func(ev *Event, x *Exit) bool { return ev.is("(" + mdl + "headerQuery).Exists") })

	// Delete
	r = c.persRun("DeleteHeader", opt())
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		ops := r.persOps(c, x)
		var sel *dbOp
		saved := false
		for i := range ops {
			o := ops[i]
			switch o.kind {
			case "select":
				sel = &ops[i]
				c.Check(equivalent(o.where, fAnd(nameIs(r.E), live)), r, x, o.ev, "row", "not exactly the live row of that name gets deleted: "+o.where.String())
			case "save":
				if !c.Check(sel != nil && r.isNilOn(x, sel.ev.err()) == 1, r, x, o.ev, "row found", "a row is marked deleted that was not found") {
					continue
				}
				saved = true
				base := r.E.initialOf(sel.rows)
				for _, f := range headerColumns {
					got := L(r, o.row, f)
					switch f {
					case "Deleted":
						c.Check(got.isInt() && got.intVal() == 1, r, x, o.ev, "deleted flag", "a deleted row is not marked as deleted")
					case "Lastknownrecord":
						c.Check(got == r.param(2), r, x, o.ev, "last known record", "a deleted row does not get the record of its deletion: "+got.String())
					case "Lastknownblock":
						c.Check(got == r.param(3), r, x, o.ev, "last known block", "a deleted row does not get the block of its deletion: "+got.String())
					default:
						c.Check(got == L(r, base, f), r, x, o.ev, "kept "+f, "deleting a row changes its "+f)
					}
				}
				c.Check(r.allColumns(o.ev), r, x, o.ev, "columns", "not all columns of the row are written")
			default:
				c.Check(false, r, x, o.ev, "statement", "deleting an entry does something else to the index: "+o.kind)
			}
		}
		if r.mayOk(x) {
			c.Check(saved, r, x, nil, "deleted", "the call succeeds without having marked the row")
			if sel != nil {
				bad := r.convertedFrom(x, x.Results[0], sel.rows)
				c.Check(bad == "", r, x, nil, "header", "the returned header differs from the row: "+bad)
			}
		}
	}
	c.errDiscipline(r, nil)
	r.noRowsPassed(c, "DeleteHeader")

	// Move
	for _, same := range []bool{false, true} {
		newT := func(e *Engine) *Term { return e.cat(e.mkStr("/"), e.relSym("NEW")) }
		if same {
			newT = slashN
		}
		r = c.persRun("MoveHeader", persOpt{shape: slashShape(), strs: []func(*Engine, *State) *Term{konst(slashN), konst(newT)}})
		if r == nil {
			return
		}
		e := r.E
		is := func(t *Term) *form { return eqAtom("name", e.atomOf(t)) }
		for _, x := range r.Exits {
			if !same && r.fact(x, e.eq(newT(e), slashN(e))) == 1 {
				continue
			}
			moved, cleared := false, false
			for _, o := range r.persOps(c, x) {
				switch o.kind {
				case "delete":
					c.Check(!same, r, x, o.ev, "row kept", "moving an entry onto its own name deletes it")
					ref, err := parseSQL("delete from headers where name = ? and linkname in (select linkname from headers where name = ?)", []*Term{newT(e), slashN(e)})
					ok := err == nil && equivalent(o.where, ref.where.formula())
					c.Check(ok || same, r, x, o.ev, "conflicting row", "not exactly the row which the moved one would collide with makes way for it: "+o.where.String())
					c.Check(!moved, r, x, o.ev, "order", "a row is deleted under the new name after the entry was moved there")
					cleared = cleared || r.isNilOn(x, o.ev.err()) == 1
				case "update":
					c.Check(same || cleared, r, x, o.ev, "no conflict", "an entry is renamed without making way for it under the new name")
					c.Check(equivalent(o.where, is(slashN(e))), r, x, o.ev, "rows moved", "not exactly the rows of the old name are renamed: "+o.where.String())
					got := map[string]*Term{}
					for _, s := range o.stmt.sets {
						got[s.as] = s.e.t
						if s.e.t == nil {
							got[s.as] = e.mkNil()
						}
					}
					want := map[string]*Term{"name": newT(e), "lastknownrecord": r.param(3), "lastknownblock": r.param(4)}
					for k, v := range want {
						c.Check(got[k] == v, r, x, o.ev, "set "+k, "a move does not set "+k+" to the given one: "+got[k].String())
					}
					for k := range got {
						c.Check(want[k] != nil, r, x, o.ev, "kept "+k, "a move changes the entry's "+k)
					}
					moved = moved || r.isNilOn(x, o.ev.err()) == 1
				case "exists":
				case "select":
				default:
					c.Check(false, r, x, o.ev, "statement", "moving an entry does something else to the index: "+o.kind)
				}
			}
			if r.mayOk(x) && !same {
				c.Check(moved, r, x, nil, "moved", "the call succeeds without having renamed the row")
			}
		}
		c.errDiscipline(r, nil)
	}

	// Purge
	root, flag := c.rootFields()
	r = c.persRun("PurgeAllHeaders", persOpt{shape: shape{root: "/", flag: true}})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		gone := false
		for _, o := range r.persOps(c, x) {
			c.Check(o.kind == "delete" && implied(fTrue(), o.where), r, x, o.ev, "rows", "purging does not remove exactly all rows")
			gone = gone || o.kind == "delete" && r.isNilOn(x, o.ev.err()) == 1
		}
		if r.mayOk(x) {
			c.Check(gone, r, x, nil, "purged", "the call succeeds without having removed the rows")
			v := r.E.load(x.St, r.E.fieldAddr(r.Args[0], root), root.Type())
			c.Check(v.isStr() && v.Name == "", r, x, nil, "cached root", "the cached root outlives the rows it came from")
			if flag != nil {
				c.Check(r.E.load(x.St, r.E.fieldAddr(r.Args[0], flag), flag.Type()).isFalse(), r, x, nil, "cached root", "what is known about the root outlives the rows it came from")
			}
		}
	}
	c.errDiscipline(r, nil)
}

func (r *Run) hadInsert(ops []dbOp) bool {
	for _, o := range ops {
		if o.kind == "insert" {
			return true
		}
	}
	return false
}

// initialOf is the value behind a pointer before anything was stored to it.
func (e *Engine) initialOf(ptr *Term) *Term { return e.load(newState(), ptr, ptrElem(ptr.Typ)) }

// noRowsPassed: callers tell a missing row by sql.ErrNoRows.
func (r *Run) noRowsPassed(c *Ctx, m string) {
	for _, x := range r.Exits {
		for _, ev := range x.events() {
			if ev.is("(" + mdl + "headerQuery).One") {
				if r.E.known(x.St, r.E.eq(ev.err(), r.E.mkNil())) == -1 {
					er := r.errResult(x)
					c.Check(er != nil && (strip(er) == ev.err() || r.foundNothing(x, dbOp{ev: ev}) && er == r.gvalT("database/sql.ErrNoRows")), r, x, ev, "missing row", "a missing row is not reported as such")
				}
			}
		}
	}
}

// everyRow: the listed headers are the converted rows, all of them and in order.
func (r *Run) everyRow(c *Ctx, x *Exit, rows, out *Term) {
	e := r.E
	els, ok := e.elemsOf(out)
	if !c.Check(ok, r, x, nil, "rows", "the result is not built from the rows: "+trunc(out)) {
		return
	}
	for i, h := range els {
		bad := r.convertedFrom(x, h, e.elem(x.St, rows, e.mkInt(int64(i)), sliceElem(rows.Typ)))
		c.Check(bad == "", r, x, nil, "row", "a listed header differs from its row: "+bad)
	}
	c.Check(e.known(x.St, e.lt(e.mkInt(int64(len(els))), e.length(rows), true)) == -1, r, x, nil, "all rows", "rows are left out")
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// elemsOf lists the elements of a slice that was built on this path.
func (e *Engine) elemsOf(t *Term) ([]*Term, bool) {
	t = strip(t)
	if t.isApp("list") {
		return t.Args, true
	}
	if t.isApp("append") {
		b, ok := e.elemsOf(t.Args[0])
		return append(append([]*Term{}, b...), t.Args[1:]...), ok
	}
	if t.isApp("appendslice") {
		a, ok1 := e.elemsOf(t.Args[0])
		b, ok2 := e.elemsOf(t.Args[1])
		return append(append([]*Term{}, a...), b...), ok1 && ok2
	}
	if t.isApp("slice") {
		a, ok := e.elemsOf(t.Args[0])
		lo, hi := t.Args[1], t.Args[2]
		if !ok || !lo.isInt() || !hi.isNil() && !hi.isInt() {
			return nil, false
		}
		h := int64(len(a))
		if hi.isInt() {
			h = hi.intVal()
		}
		if lo.intVal() < 0 || h > int64(len(a)) || lo.intVal() > h {
			return nil, false
		}
		return a[lo.intVal():h], true
	}
	if n := e.length(t); t.isNil() || n.isInt() && n.intVal() == 0 {
		return nil, true
	}
	return nil, false
}

// ---- children ----------------------------------------------------------------------

// rawStmt is the statement a Bind runs.
func (e *Engine) rawStmt(ev *Event) *sqlStmt {
	q := ev.arg(0)
	if q == nil || q.Op != "res" || !q.Ev.is(boilQ+"Raw") || !q.Ev.arg(0).isStr() {
		return nil
	}
	var as []*Term
	if l := q.Ev.snap(1); l != nil {
		els, ok := e.elemsOf(l)
		if !ok {
			return nil
		}
		for _, a := range els {
			as = append(as, strip(a))
		}
	}
	st, err := parseSQL(q.Ev.arg(0).Name, as)
	if err != nil {
		return nil
	}
	return st
}

func (s *sqlStmt) mentions(col string) bool {
	return s != nil && s.where != nil && s.where.usesCol(col)
}

func (e *sx) usesCol(col string) bool {
	if e == nil {
		return false
	}
	if e.op == "col" && e.s == col {
		return true
	}
	for _, a := range e.args {
		if a.usesCol(col) {
			return true
		}
	}
	return false
}

// prefixCol is the column whose beginning the statement compares.
func (s *sqlStmt) byLink() bool {
	if s == nil || s.where == nil {
		return false
	}
	m := map[string]bool{}
	s.inline(s.where).formula().lits(m)
	for a := range m {
		if strings.HasPrefix(a, "prefix linkname") || strings.Contains(a, "length(replace(linkname") || strings.Contains(a, "length(replace(substr(linkname") {
			return true
		}
	}
	return false
}

type kidCase struct {
	name string // what the row is called
	rows []func(e *Engine, own *Term) *Term
	keep int
}

func kidCases() []kidCase {
	own := func(e *Engine, own *Term) *Term { return own }
	slash := func(e *Engine, own *Term) *Term { return e.cat(own, e.mkStr("/")) }
	kid := func(n string) func(e *Engine, own *Term) *Term {
		return func(e *Engine, own *Term) *Term {
			ps := parts(own)
			if own.isStr() {
				switch own.Name {
				case "/", "./":
					return e.cat(own, e.relSym(n))
				}
				return e.relSym(n)
			}
			_ = ps
			return e.cat(own, e.mkStr("/"), e.relSym(n))
		}
	}
	type f = func(e *Engine, own *Term) *Term
	return []kidCase{
		{"nothing", nil, 0},
		{"the directory itself", []f{own}, 0},
		{"the directory itself, stored with a slash", []f{slash}, 0},
		{"a child", []f{kid("K1")}, 1},
		{"two children around the directory itself", []f{kid("K1"), own, kid("K2")}, 2},
		{"three children", []f{kid("K1"), kid("K2"), kid("K3")}, 3},
	}
}

// slashes is the canonical number of slashes in a column below a prefix.
func depthKey(col, prefix string) string {
	x := col
	if prefix != "''" {
		x = "substr(" + col + ",(1+length(" + prefix + ")))"
	}
	return "(length(" + x + ")-length(replace(" + x + ",'/','')))"
}

// dbChildren: which entries count as beneath a directory.
func dbChildren(c *Ctx) {
	for _, sh := range shapes() {
		for _, root := range []bool{false, true} {
			for ci, kc := range kidCases() {
				sh, root, kc := sh, root, kc
				own := func(e *Engine) *Term {
					if root {
						return e.mkStr(sh.root)
					}
					return sh.entry(e, e.relSym("N"))
				}
				spell := func(e *Engine, _ *State) *Term {
					if root {
						return e.mkStr("/")
					}
					return e.cat(e.mkStr("/"), e.relSym("N"))
				}
				label := fmt.Sprintf("root %q", sh.root)
				if root {
					label += ", of the root"
				}
				if ci == 2 && (!root && false || root && sh.root != ".") {
					continue
				}
				c.childrenAll(sh, root, kc, own, spell, label)
				c.childrenDirect(sh, root, kc, own, spell, label)
			}
		}
	}
}

// scenario rows are pointers to headers with the given names.
func (e *Engine) rowPtrs(typ types.Type, n int, what string) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, e.sym(fmt.Sprintf("%s%d", what, i+1), sliceElem(typ)))
	}
	return out
}

func nameVar(ptr types.Type, field string) *types.Var {
	if s, ok := ptrElem(ptr).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				return s.Field(i)
			}
		}
	}
	return nil
}

func (c *Ctx) childrenAll(sh shape, root bool, kc kidCase, own func(*Engine) *Term, spell func(*Engine, *State) *Term, label string) {
	var rows []*Term
	r := c.persRun("GetHeaderChildren", persOpt{visits: 6, shape: sh, strs: []func(*Engine, *State) *Term{spell},
		setup: func(r *Run, st *State) {
			r.E.Override = func(ev *Event, slot int, typ types.Type) *Term {
				if slot != 0 || !ev.is("("+mdl+"headerQuery).All") {
					return nil
				}
				return r.scenarioRows(st, typ, kc, own(r.E), &rows)
			}
		},
		observe: func(e *Engine, ev *Event, st *State) {
			if ev.is("(" + mdl + "headerQuery).All") {
				e.nameRows(st, rows, kc, own(e))
			}
		}})
	if r == nil {
		return
	}
	e := r.E
	prefix := "''"
	if !root {
		prefix = e.atomOf(e.cat(own(e), e.mkStr("/")))
	}
	want := live
	if !root {
		want = fAnd(live, fAtom("prefix name "+prefix))
	}
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "listing can crash the process ("+label+")")
		var all *dbOp
		ops := r.persOps(c, x)
		for i, o := range ops {
			if !c.Check(o.kind == "select" && o.many, r, x, o.ev, "statement", "looking for children does something else to the index") {
				continue
			}
			all = &ops[i]
			c.Check(len(o.sx.patterns()) == 0, r, x, o.ev, "no patterns", "names are matched as patterns, so wildcard characters in them match other entries")
			me := fOr(eqAtom("name", e.atomOf(own(e))), eqAtom("name", e.atomOf(e.cat(own(e), e.mkStr("/")))))
			c.Check(implied(o.where, want), r, x, o.ev, "nothing else", "entries which are not beneath the directory are selected ("+label+"): "+o.where.String())
			c.Check(implied(fAnd(want, fNot(me)), o.where), r, x, o.ev, "everything beneath", "not everything beneath the directory is selected ("+label+"): "+o.where.String())
			c.Check(o.lim == nil, r, x, o.ev, "no limit", "the descendants are cut off")
		}
		if !r.mayOk(x) {
			continue
		}
		if all == nil {
			c.Check(false, r, x, nil, "looks up", "the call succeeds without asking the index")
			continue
		}
		r.kidsResult(c, x, rows, kc, label, -1)
	}
	c.errDiscipline(r, nil)
}

// scenarioRows makes a slice of row pointers.
func (r *Run) scenarioRows(st *State, typ types.Type, kc kidCase, own *Term, rows *[]*Term) *Term {
	e := r.E
	if *rows == nil {
		*rows = e.rowPtrs(typ, len(kc.rows), "row")
	}
	return e.tt.mk("app", "append", typ, append([]*Term{e.mkNil()}, *rows...)...)
}

func (e *Engine) nameRows(st *State, rows []*Term, kc kidCase, own *Term) {
	for i, p := range rows {
		v := nameVar(p.Typ, "Name")
		e.store(st, e.fieldAddr(p, v), kc.rows[i](e, own))
		e.assume(st, e.eq(p, e.mkNil()), false)
	}
}

// kidsResult: the result is exactly the rows other than the directory itself.
func (r *Run) kidsResult(c *Ctx, x *Exit, rows []*Term, kc kidCase, label string, limit int) {
	e := r.E
	els, ok := e.elemsOf(x.Results[0])
	if !c.Check(ok, r, x, nil, "result", "the result is not built from the rows ("+label+"): "+trunc(x.Results[0])) {
		return
	}
	n := kc.keep
	if limit >= 0 && limit < n {
		n = limit
	}
	c.Check(len(els) == n, r, x, nil, "result size", fmt.Sprintf("%d instead of %d entries are listed when the index holds %s (%s, limit %d)", len(els), n, kc.name, label, limit))
	seen := map[string]bool{}
	for _, h := range els {
		name := strip(e.field(e.load(x.St, h, ptrElem(h.Typ)), "Name", nil))
		c.Check(strings.Contains(name.String(), "rel:K"), r, x, nil, "children only", "something else than a child is listed: "+name.String())
		c.Check(!seen[name.String()], r, x, nil, "listed once", "an entry is listed twice")
		seen[name.String()] = true
		for _, p := range rows {
			if strip(e.load(x.St, e.fieldAddr(p, nameVar(p.Typ, "Name")), nil)) == name && h != p {
				bad := r.convertedFrom(x, h, p)
				c.Check(bad == "", r, x, nil, "row", "a listed header differs from its row: "+bad)
			}
		}
	}
}

func (c *Ctx) childrenDirect(sh shape, root bool, kc kidCase, own func(*Engine) *Term, spell func(*Engine, *State) *Term, label string) {
	for _, limit := range []int{-1, 0, 1, 2, 3, 4} {
		if limit > 0 && kc.keep < 1 {
			continue
		}
		limit := limit
		var rows []*Term
		isMany := func(e *Engine, ev *Event) bool {
			return ev.is("(*"+boilQ+"Query).Bind") && sliceElem(ptrElem(strip(ev.Args[3]).Typ)) != nil
		}
		r := c.persRun("GetHeaderDirectChildren", persOpt{visits: 6, shape: sh, strs: []func(*Engine, *State) *Term{spell},
			setup: func(r *Run, st *State) {
				for i, p := range r.Fn.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						r.Args[i] = r.E.mkInt(int64(limit))
					}
				}
				r.E.Override = func(ev *Event, slot int, typ types.Type) *Term {
					if slot == 103 && isMany(r.E, ev) {
						typ = ptrElem(strip(ev.Args[3]).Typ)
						if r.E.rawStmt(ev).byLink() {
							return r.E.tt.mk("app", "append", typ, r.E.mkNil())
						}
						return r.scenarioRows(st, typ, kc, own(r.E), &rows)
					}
					return nil
				}
			},
			observe: func(e *Engine, ev *Event, st *State) {
				if ev.is("(*" + boilQ + "Query).Bind") {
					// Neither a list nor an aggregate is ever without rows
					e.assume(st, e.eq(ev.err(), e.tt.mk("gval", "database/sql.ErrNoRows", nil)), false)
				}
				if isMany(e, ev) && !e.rawStmt(ev).byLink() {
					if rows == nil {
						rows = e.rowPtrs(ptrElem(strip(ev.Args[3]).Typ), len(kc.rows), "row")
					}
					e.nameRows(st, rows, kc, own(e))
				}
			}})
		if r == nil {
			return
		}
		e := r.E
		prefix := "''"
		if !root {
			prefix = e.atomOf(e.cat(own(e), e.mkStr("/")))
		}
		for _, x := range r.Exits {
			c.Check(x.Kind == "return", r, x, nil, "panic", "listing can crash the process ("+label+")")
			ops := r.persOps(c, x)
			byName, byLink := false, false
			for _, o := range ops {
				if !c.Check(o.kind == "select", r, x, o.ev, "statement", "listing does something else to the index") || !o.many || o.stmt == nil {
					continue
				}
				col, extra := "name", eqAtom("linkname", "''")
				if o.stmt.byLink() {
					col, extra, byLink = "linkname", fTrue(), true
				} else {
					byName = true
				}
				c.Check(len(o.sx.patterns()) == 0, r, x, o.ev, "no patterns", "names are matched as patterns, so wildcard characters in them match other entries")
				in := fTrue()
				if !root {
					in = fAtom("prefix " + col + " " + prefix)
				}
				// at which depth the children are
				var rds []string
				if !root {
					rds = []string{"0"}
				} else {
					rds = []string{map[string]string{"/": "1", ".": "0", "./": "1", "": "0"}[sh.root]}
					for _, q := range ops {
						if q.i < o.i && q.rows != nil && !q.many && q.stmt != nil && len(q.stmt.cols) > 0 && equivalent(q.where, live) && q.stmt.cols[0].e.key() == "min("+depthKey("name", "''")+")" {
							rds = append(rds, "out:"+itoa(q.i))
							d := e.outOf(q.ev, 3, nil)
							for _, t := range o.stmt.where.params() {
								if u := unconv(t); u.Op != "poly" && u.hasDeep(d) && r.isNilOn(x, q.ev.err()) == 1 {
									rds = append(rds, fmt.Sprintf("?%d", t.ID))
								}
							}
						}
					}
				}
				own2 := fOr(eqAtom(col, e.atomOf(own(e))), eqAtom(col, e.atomOf(e.cat(own(e), e.mkStr("/")))), eqAtom(col, "''"), eqAtom(col, "'.'"), eqAtom(col, "'/'"), eqAtom(col, "'./'"))
				hit, only := false, false
				for _, rd := range rds {
					d := depthKey(col, prefix)
					slash := fAtom("suffix " + col + " '/'")
					for _, up := range []string{"1+" + rd, plus1(e, o.stmt, rd)} {
						want := fAnd(live, extra, in, fOr(eqAtom(d, rd), fAnd(slash, eqAtom(d, up))))
						if implied(o.where, want) {
							only = true
							if implied(fAnd(want, fNot(own2)), o.where) {
								hit = true
							}
						}
					}
				}
				c.Check(only, r, x, o.ev, "children only", "entries which are not direct children of the directory are selected ("+label+"): "+o.where.String())
				c.Check(hit || !only, r, x, o.ev, "all children", "not all direct children of the directory are selected ("+label+"): "+o.where.String())
				// columns
				have := map[string]bool{}
				for _, cl := range o.stmt.cols {
					if cl.e.op == "star" {
						for _, f := range headerColumns {
							have[strings.ToLower(f)] = true
						}
					}
					if cl.e.op == "col" {
						have[cl.e.s] = true
					}
					if cl.as != "" && cl.as != cl.e.s {
						have[cl.as] = false
					}
				}
				for _, f := range headerColumns {
					k := strings.ToLower(f)
					if k == "linkname" && col == "name" {
						continue // it is empty
					}
					what := "column " + k
					if col == "linkname" {
						what = "link column " + k
					}
					c.Check(have[k], r, x, o.ev, what, "the "+k+" of listed entries is not read")
				}
				if o.limSQ != nil {
					k := o.limSQ.key()
					ok := limit > 0 && o.limSQ.op == "num" && atoi(k) > int64(limit)
					c.Check(ok, r, x, o.ev, "limit", fmt.Sprintf("the statement's limit %s does not leave room for the requested %d entries and the directory itself", k, limit))
				}
			}
			if !r.mayOk(x) {
				continue
			}
			empty := true
			for _, o := range ops {
				if o.many && r.isNilOn(x, o.ev.err()) == 1 {
					empty = false
				}
			}
			if empty {
				ok := false
				for _, o := range ops {
					ok = ok || r.foundNothing(x, o)
				}
				c.Check(ok, r, x, nil, "looks up", "the call succeeds without asking the index")
				continue
			}
			skipped := false
			for _, o := range ops {
				if o.many && !o.stmt.byLink() && r.foundNothing(x, o) {
					skipped = true
				}
			}
			if skipped {
				continue
			}
			c.Check(byName, r, x, nil, "by name", "the entries of the directory are not looked up by name")
			c.Check(byLink, r, x, nil, "by link", "the links in the directory are not looked up")
			l := limit
			if l <= 0 {
				l = -1
			}
			r.kidsResult(c, x, rows, kc, label, l)
		}
		c.errDiscipline(r, func(ev *Event, x *Exit) bool {
			return ev.err() != nil && r.foundNothing(x, dbOp{ev: ev})
		})
	}
}

func atoi(s string) int64 {
	var n int64
	fmt.Sscan(s, &n)
	return n
}

// plus1 is how the parameter one above rd is written.
func plus1(e *Engine, s *sqlStmt, rd string) string {
	if rd != "" && rd[0] >= '0' && rd[0] <= '9' {
		return fmt.Sprint(atoi(rd) + 1)
	}
	for _, t := range s.where.params() {
		for _, u := range s.where.params() {
			if fmt.Sprintf("?%d", u.ID) == rd && e.sub(t, u) == e.mkInt(1) {
				return fmt.Sprintf("?%d", t.ID)
			}
		}
	}
	return "1+" + rd
}

// params lists the bound parameters that are not constants.
func (e *sx) params() []*Term {
	if e == nil {
		return nil
	}
	var out []*Term
	if e.op == "par" && e.t != nil {
		out = append(out, e.t)
	}
	for _, a := range e.args {
		out = append(out, a.params()...)
	}
	return out
}

// childrenLinks: a link is listed under its own name with what it points to.
func childrenLinks(c *Ctx) {
	var rows []*Term
	r := c.persRun("GetHeaderDirectChildren", persOpt{visits: 4, shape: slashShape(), strs: []func(*Engine, *State) *Term{konst(slashN)},
		setup: func(r *Run, st *State) {
			for i, p := range r.Fn.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					r.Args[i] = r.E.mkInt(-1)
				}
			}
			r.E.Override = func(ev *Event, slot int, typ types.Type) *Term {
				if slot == 103 && ev.is("(*"+boilQ+"Query).Bind") && sliceElem(ptrElem(strip(ev.Args[3]).Typ)) != nil {
					typ = ptrElem(strip(ev.Args[3]).Typ)
					if !r.E.rawStmt(ev).byLink() {
						return r.E.tt.mk("app", "append", typ, r.E.mkNil())
					}
					if rows == nil {
						rows = r.E.rowPtrs(typ, 1, "link")
					}
					return r.E.tt.mk("app", "append", typ, r.E.mkNil(), rows[0])
				}
				return nil
			}
		},
		observe: func(e *Engine, ev *Event, st *State) {
			if ev.is("(*" + boilQ + "Query).Bind") {
				e.assume(st, e.eq(ev.err(), e.tt.mk("gval", "database/sql.ErrNoRows", nil)), false)
				if e.rawStmt(ev).byLink() {
					if rows == nil {
						rows = e.rowPtrs(ptrElem(strip(ev.Args[3]).Typ), 1, "link")
					}
					e.store(st, e.fieldAddr(rows[0], nameVar(rows[0].Typ, "Name")), e.cat(e.mkStr("/"), e.relSym("TARGET")))
					e.store(st, e.fieldAddr(rows[0], nameVar(rows[0].Typ, "Linkname")), e.cat(e.mkStr("/"), e.relSym("N"), e.mkStr("/"), e.relSym("LINK")))
				}
			}
		}})
	if r == nil {
		return
	}
	e := r.E
	n := 0
	for _, x := range r.Exits {
		if !r.mayOk(x) {
			continue
		}
		els, ok := e.elemsOf(x.Results[0])
		if !c.Check(ok && len(els) == 1, r, x, nil, "link listed", "a link is not listed exactly once") {
			continue
		}
		v := e.load(x.St, els[0], ptrElem(els[0].Typ))
		name, link := strip(e.field(v, "Name", nil)), strip(e.field(v, "Linkname", nil))
		c.Check(strings.HasSuffix(name.String(), "rel:LINK)"), r, x, nil, "link name", "a link is not listed under its own name but as "+name.String())
		c.Check(strings.Contains(link.String(), "rel:TARGET"), r, x, nil, "link target", "a listed link does not tell its target but "+link.String())
		for _, o := range r.persOps(c, x) {
			if o.kind == "select" && !o.many && o.stmt != nil && o.rows != nil {
				n++
				c.Check(equivalent(o.where, fAnd(eqAtom("name", e.atomOf(e.cat(e.mkStr("/"), e.relSym("TARGET")))), live)), r, x, o.ev, "target", "the link's target is not looked up: "+o.where.String())
				if r.isNilOn(x, o.ev.err()) == 1 {
					bad := r.convertedFrom(x, els[0], o.rows, "Name", "Linkname")
					c.Check(bad == "", r, x, o.ev, "target's header", "a listed link differs from its target: "+bad)
				} else {
					c.Check(els[0] == rows[0], r, x, o.ev, "broken link", "a link without a target is not listed as itself")
				}
			}
		}
	}
	c.Check(n > 0, r, nil, nil, "links", "links are never resolved")
}

// ---- where the tape ends ------------------------------------------------------------

func dbLast(c *Ctx) {
	r := c.persRun("GetLastIndexedRecordAndBlock", persOpt{shape: slashShape()})
	if r == nil {
		return
	}
	e := r.E
	n := 0
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "asking for the last position can crash the process")
		ops := r.persOps(c, x)
		for _, o := range ops {
			if !c.Check(o.kind == "select" && o.stmt != nil, r, x, o.ev, "statement", "asking for the last position does something else to the index") {
				continue
			}
			n++
			c.Check(implied(fTrue(), o.where), r, x, o.ev, "all rows", "deleted or other rows are left out, though their records are on the tape: "+o.where.String())
			ref, _ := parseCond("lastknownrecord * ? + lastknownblock", []*Term{r.param(1)})
			key := func(s *sx) string { return o.stmt.inline(s).key() }
			sorted := len(o.stmt.order) > 0 && o.stmt.order[0].desc && key(o.stmt.order[0].e) == ref.key() ||
				len(o.stmt.order) > 1 && o.stmt.order[0].desc && o.stmt.order[1].desc && key(o.stmt.order[0].e) == "lastknownrecord" && key(o.stmt.order[1].e) == "lastknownblock"
			var keys []string
			for _, k := range o.stmt.order {
				d := ""
				if k.desc {
					d = " desc"
				}
				keys = append(keys, key(k.e)+d)
			}
			c.Check(sorted, r, x, o.ev, "order", "the row with the greatest position does not come first: "+strings.Join(keys, ", "))
			have := map[string]bool{}
			for _, cl := range o.stmt.cols {
				nm := cl.as
				if nm == "" {
					nm = cl.e.s
				}
				if cl.e.op == "star" {
					have["lastknownrecord"], have["lastknownblock"] = true, true
				}
				if cl.e.op == "col" && nm == cl.e.s {
					have[nm] = true
				}
			}
			c.Check(have["lastknownrecord"] && have["lastknownblock"], r, x, o.ev, "columns", "the position is not read")
			if o.limSQ != nil {
				c.Check(o.limSQ.op == "num" && atoi(o.limSQ.s) >= 1, r, x, o.ev, "limit", "no row is returned")
			}
			if r.mayOk(x) && len(x.Results) == 3 {
				a, b := strip(x.Results[0]), strip(x.Results[1])
				if r.isNilOn(x, o.ev.err()) == 1 {
					out := o.rows
					c.Check(a == strip(e.field(out, "Lastknownrecord", nil)) && b == strip(e.field(out, "Lastknownblock", nil)), r, x, o.ev, "result", fmt.Sprintf("not the row's last known record and block are returned: %s, %s", a, b))
				} else {
					c.Check(r.foundNothing(x, o) && a.isInt() && a.intVal() == 0 && b.isInt() && b.intVal() == 0, r, x, o.ev, "empty index", "an empty index does not start at the first record")
				}
			}
		}
		if r.mayOk(x) {
			c.Check(len(ops) > 0, r, x, nil, "looks up", "the call succeeds without asking the index")
		}
	}
	c.Check(n > 0, r, nil, nil, "looks up", "the index is never asked")
	c.errDiscipline(r, func(ev *Event, x *Exit) bool { return r.foundNothing(x, dbOp{ev: ev}) })
}

// ---- the root -----------------------------------------------------------------------

func dbRoot(c *Ctx) {
	root, _ := c.rootFields()
	for _, cached := range []string{"", "/", "./"} {
		r := c.persRun("GetRootPath", persOpt{shape: shape{root: cached}})
		if r == nil {
			return
		}
		e := r.E
		for _, x := range r.Exits {
			c.Check(x.Kind == "return", r, x, nil, "panic", "asking for the root can crash the process")
			ops := r.persOps(c, x)
			after := strip(e.load(x.St, e.fieldAddr(r.Args[0], root), root.Type()))
			for _, o := range ops {
				c.Check(o.kind == "select" && o.stmt != nil && o.stmt.table == "headers", r, x, o.ev, "statement", "asking for the root does something else to the index")
				if o.stmt == nil {
					continue
				}
				c.Check(equivalent(o.where, live), r, x, o.ev, "live rows", "the root is not looked for among exactly the live rows: "+o.where.String())
				least := false
				name := false
				for _, cl := range o.stmt.cols {
					least = least || o.stmt.inline(cl.e).key() == "min("+depthKey("name", "''")+")"
					name = name || cl.e.op == "col" && cl.e.s == "name" || cl.e.op == "star"
				}
				if len(o.stmt.order) > 0 {
					k := o.stmt.order[0]
					least = least || !k.desc && o.stmt.inline(k.e).key() == depthKey("name", "''")
				}
				c.Check(least, r, x, o.ev, "least slashes", "the root is not the live name with the fewest slashes")
				c.Check(name, r, x, o.ev, "name", "the root's name is not read")
				if r.isNilOn(x, o.ev.err()) == 1 && r.mayOk(x) {
					w := strip(e.field(o.rows, "Name", nil))
					c.Check(strip(x.Results[0]) == w, r, x, o.ev, "result", "not the name that was found is returned: "+x.Results[0].String())
					c.Check(after == w || after.isStr() && after.Name == cached, r, x, o.ev, "cached root", "something else than the root is cached: "+after.String())
				} else {
					c.Check(after.isStr() && after.Name == cached, r, x, o.ev, "cached root", "a root is cached that was not found: "+after.String())
				}
			}
			if r.mayOk(x) {
				if len(ops) == 0 {
					c.Check(cached != "" && strip(x.Results[0]).isStr() && strip(x.Results[0]).Name == cached, r, x, nil, "cached result", "the root is neither looked up nor the cached one")
				}
			}
			for _, o := range ops {
				if r.isNilOn(x, o.ev.err()) != 1 {
					er := r.errResult(x)
					c.Check(er != nil && (strip(er) == o.ev.err() || r.isErr(x, er, "pkg/config.ErrNoRootDirectory") || !strip(er).isNil()), r, x, o.ev, "error", "a failed lookup of the root is not reported")
				}
			}
		}
		c.errDiscipline(r, nil)
	}
}

// ---- conversions ----------------------------------------------------------------------

// dbConverters: the four header conversions copy every attribute.
func dbConverters(c *Ctx) {
	for _, name := range []string{"ConfigHeaderToDBHeader", "DBHeaderToConfigHeader"} {
		r := c.Run("internal/converters", "", name, RunOpt{})
		if r == nil {
			return
		}
		for _, x := range r.Exits {
			if !c.Check(x.Kind == "return" && len(x.Results) == 1, r, x, nil, "panic", "a header conversion can crash the process") {
				continue
			}
			out := r.E.load(x.St, x.Results[0], ptrElem(x.Results[0].Typ))
			in := r.E.initialOf(r.param(0))
			for _, f := range headerColumns {
				got := strip(r.E.field(out, f, nil))
				c.Check(got == strip(r.E.field(in, f, nil)), r, x, nil, "field "+f, "the "+f+" is not carried over: "+got.String())
			}
		}
	}
	pairs := map[string]string{"Typeflag": "Typeflag", "Name": "Name", "Linkname": "Linkname", "Size": "Size", "Mode": "Mode", "Uid": "UID", "Gid": "Gid", "Uname": "Uname", "Gname": "Gname", "ModTime": "Modtime", "AccessTime": "Accesstime", "ChangeTime": "Changetime", "Devmajor": "Devmajor", "Devminor": "Devminor", "Format": "Format"}
	r := c.Run("internal/converters", "", "DBHeaderToTarHeader", RunOpt{})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "a header conversion can crash the process")
		if !r.mayOk(x) {
			continue
		}
		out := r.E.load(x.St, x.Results[0], ptrElem(x.Results[0].Typ))
		in := r.E.initialOf(r.param(0))
		for a, b := range pairs {
			got := unconv(r.E.field(out, a, nil))
			c.Check(got == unconv(r.E.field(in, b, nil)), r, x, nil, "field "+a, "the "+a+" is not carried over: "+got.String())
		}
		px := strip(r.E.field(out, "PAXRecords", nil))
		un := r.E.tt.mk("app", "unjson", px.Typ, strip(r.E.field(in, "Paxrecords", nil)))
		isUn := func(t *Term) bool { return t.isApp("unjson") && t.Args[0] == un.Args[0] }
		none := false
		for f, v := range x.St.facts {
			none = none || v && f.isApp("eq") && (isUn(f.Args[0]) && f.Args[1].isNil() || isUn(f.Args[1]) && f.Args[0].isNil())
		}
		c.Check(isUn(px) || px.Op == "makemap" && none, r, x, nil, "PAX records", "the PAX records are not carried over: "+px.String())
		c.Check(!none || px.Op == "makemap", r, x, nil, "PAX map", "the header may have no map which PAX records can be added to")
	}
	c.errDiscipline(r, nil)
	r = c.Run("internal/converters", "", "TarHeaderToDBHeader", RunOpt{})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "a header conversion can crash the process")
		if !r.mayOk(x) {
			continue
		}
		out := r.E.load(x.St, x.Results[0], ptrElem(x.Results[0].Typ))
		in := r.E.initialOf(r.param(4))
		for a, b := range pairs {
			got := unconv(r.E.field(out, b, nil))
			c.Check(got == unconv(r.E.field(in, a, nil)), r, x, nil, "field "+b, "the "+b+" is not carried over: "+got.String())
		}
		for i, f := range []string{"Record", "Lastknownrecord", "Block", "Lastknownblock"} {
			got := strip(r.E.field(out, f, nil))
			c.Check(got == r.param(i), r, x, nil, "field "+f, "the "+f+" is not the given one: "+got.String())
		}
		d := strip(r.E.field(out, "Deleted", nil))
		c.Check(d.isInt() && d.intVal() == 0 || d.Op == "zero", r, x, nil, "field Deleted", "a new header is not live: "+d.String())
		px := unconv(r.E.field(out, "Paxrecords", nil))
		c.Check(px.isApp("json") && strip(px.Args[0]) == strip(r.E.field(in, "PAXRecords", nil)), r, x, nil, "PAX records", "the PAX records are not carried over: "+px.String())
	}
	c.errDiscipline(r, nil)
}

// unconv drops integer conversions.
func unconv(t *Term) *Term {
	t = strip(t)
	for t != nil && t.isApp("conv") && len(t.Args) == 1 {
		t = strip(t.Args[0])
	}
	return t
}

// dbOpen: the index lives in the configured file, is migrated and is accessed by
// one connection.
func dbOpen(c *Ctx) {
	r := c.Run("internal/persisters", "SQLite", "Open", RunOpt{})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "opening the index can crash the process")
		if !r.mayOk(x) {
			continue
		}
		evs := x.events()
		op := find(evs, named("database/sql.Open"))
		if !c.Check(op != nil, r, x, nil, "opened", "the index is not opened") {
			continue
		}
		_, f, b := fieldOf(op.arg(1))
		c.Check(f == "DBPath" && rootOf(b) == strip(r.Args[0]), r, x, op, "file", "not the configured file is opened: "+op.arg(1).String())
		db := op.Results[0]
		one := find(evs, func(ev *Event) bool { return ev.is("(*database/sql.DB).SetMaxOpenConns") && ev.arg(0) == db })
		c.Check(one != nil && one.arg(1).isInt() && one.arg(1).intVal() == 1, r, x, op, "one connection", "concurrent connections to the index are possible, which makes calls fail with a locked database")
		mig := find(evs, named("github.com/rubenv/sql-migrate.Exec"))
		if mig == nil {
			ok := false
			for f, v := range x.St.facts {
				ok = ok || v && f.isApp("eq") && strings.Contains(f.String(), "Migrations")
			}
			c.Check(ok, r, x, op, "migrated", "the tables are not created")
		} else {
			c.Check(mig.arg(0) == db && mig.arg(3).isInt() && mig.arg(3).intVal() == 0, r, x, mig, "migrated", "the tables are not created in the opened index")
		}
	}
	c.errDiscipline(r, nil)
	r = c.persRun("Open", persOpt{shape: shape{root: ""}})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		c.Check(x.Kind == "return", r, x, nil, "panic", "opening the index can crash the process")
		if r.mayOk(x) {
			c.Check(find(x.events(), named("database/sql.Open")) != nil, r, x, nil, "opened", "the index is not opened")
		}
	}
}

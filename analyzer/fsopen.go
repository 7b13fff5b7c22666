package main

import (
	"archive/tar"
	"fmt"
	"go/types"
	"os"
	"strings"
)

// ---- what a returned file information says -----------------------------------------

// infoMethods asks a file information for everything it can tell.
func (r *Run) infoMethods(x *Exit, info *Term) map[string]*Term {
	out := map[string]*Term{}
	t := info
	if s := strip(t); s.Op == "iface" {
		t = s
	} else if t.Op != "iface" && s.Typ != nil && !types.IsInterface(s.Typ) {
		t = r.E.iface(s, s.Typ)
	}
	if t.Op != "iface" || t.Typ == nil {
		return out
	}
	for _, n := range []string{"Name", "Size", "Mode", "ModTime", "IsDir", "Sys"} {
		fn := r.E.P.Prog.LookupMethod(t.Typ, nil, n)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		for _, y := range r.E.runFunc(x.St.clone(), fn, []*Term{t.Args[0]}, nil, nil, x.Pos) {
			if y.Kind != "return" || len(y.Results) != 1 {
				continue
			}
			v := strip(y.Results[0])
			out[n] = v
			if n == "Sys" && v.Op == "iface" {
				v = strip(v.Args[0])
			}
			if n == "Sys" {
				if s := derefStruct(v.Typ); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if f := s.Field(i); statFields[f.Name()] != "" {
							out["Sys."+f.Name()] = strip(r.E.load(y.St, r.E.fieldAddr(v, f), f.Type()))
						}
					}
				}
			}
		}
	}
	return out
}

var statFields = map[string]string{"Uid": "UID", "Gid": "Gid", "Mtim": "Modtime", "Atim": "Accesstime", "Ctim": "Changetime"}

// rowFields are the attributes of index rows a value is made of.
func rowFields(t *Term) map[string]bool {
	out := map[string]bool{}
	t.containsDeep(func(s *Term) bool {
		if _, f, base := fieldOf(s); base != nil && rowOf(base) != nil {
			out[f] = true
		}
		return false
	})
	return out
}

// dirBit: the value has the bit that marks directories added to it.
func dirBit(t *Term) bool {
	return t.containsDeep(func(s *Term) bool { return s.isInt() && s.intVal()&int64(os.ModeDir) != 0 })
}

// coarse: a time enters the value in a unit coarser than nanoseconds, without
// the rest.
func coarse(t *Term) bool {
	app := func(names ...string) bool {
		return t.containsDeep(func(s *Term) bool {
			for _, n := range names {
				if s.isApp("(time.Time)." + n) {
					return true
				}
			}
			return false
		})
	}
	return app("Unix", "UnixMilli", "UnixMicro", "Truncate", "Round") && !app("UnixNano", "Nanosecond")
}

// peelInfo: the attribute of a header that a method of its file information
// tells.
func (r *Run) peelInfo(t *Term) (attr string, hdr *Term) {
	t = strip(t)
	if t.isApp("(io/fs.FileMode).IsDir") && len(t.Args) == 1 {
		if a, h := r.peelInfo(t.Args[0]); a == "Mode" {
			return "IsDir", h
		}
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "(io/fs.FileInfo).") && len(t.Args) == 1 && strip(t.Args[0]).isApp("FileInfo") {
		return strings.TrimPrefix(t.Name, "(io/fs.FileInfo)."), strip(t.Args[0]).Args[0]
	}
	return "", nil
}

// infoIs: the file information is the one of the entry as the index has it.
func (r *Run) infoIs(x *Exit, info *Term, name, kind string) string {
	m := r.infoMethods(x, info)
	if len(m) == 0 {
		return "" // an information of a kind that is not known
	}
	var row *Term
	for _, n := range []string{"Name", "Size", "Mode", "ModTime", "IsDir"} {
		t := m[n]
		if t == nil {
			return "the file information does not tell " + n
		}
		attr, h := r.peelInfo(t)
		get := func(f string) *Term { return strip(r.E.field(h, f, nil)) }
		switch n {
		case "Name":
			if h != nil && (attr != "Name" || !designates(get("Name"), name)) {
				return "another name than the entry's is reported"
			}
			if h == nil {
				if s, ok := unspell(t); ok && s != name[strings.LastIndex(name, "/")+1:] {
					return "another name than the entry's is reported"
				}
			}
			continue
		case "IsDir":
			if t.isBool() && t.isTrue() != strings.HasPrefix(kind, "dir") {
				return "the wrong kind is reported"
			}
			if !t.isBool() && h != nil && attr != "IsDir" {
				return "the wrong kind is reported"
			}
			if h == nil && !t.isBool() {
				for f := range rowFields(t) {
					if f != "Typeflag" && f != "Mode" && f != "Name" {
						return "the kind that is reported depends on the " + f
					}
				}
			}
			if h != nil {
				if tf := get("Typeflag"); tf.isInt() && (tf.intVal() == tar.TypeDir) != strings.HasPrefix(kind, "dir") {
					return "the wrong kind is reported"
				}
			}
			continue
		}
		if n == "Mode" && h == nil && strings.HasPrefix(kind, "dir") && !rowFields(t)["Typeflag"] && !dirBit(t) {
			return "the mode that is reported does not tell that it is a directory"
		}
		if h != nil {
			if attr != n {
				return "instead of the " + n + " the " + attr + " is reported"
			}
			if n == "Mode" {
				if tf := get("Typeflag"); tf.isInt() && (tf.intVal() == tar.TypeDir) != strings.HasPrefix(kind, "dir") {
					return "the wrong kind is reported"
				}
			}
			t = get(n)
		}
		rw := rowOf(t)
		if rw == nil {
			return "the " + n + " that is reported is not the one of the entry: " + t.String()
		}
		if row != nil && rw != row {
			return "the file information mixes two entries"
		}
		row = rw
		for f := range rowFields(t) {
			if !strings.EqualFold(f, n) {
				return "instead of the " + n + " the " + f + " is reported"
			}
		}
	}
	for f, want := range statFields {
		t := m["Sys."+f]
		if t == nil {
			continue
		}
		if strings.HasSuffix(f, "tim") && coarse(t) {
			return "the " + f + " that is reported is not exact"
		}
		for _, peeled := range []func(*Term) bool{func(s *Term) bool { a, _ := r.peelInfo(s); return a == "ModTime" }} {
			if f == "Mtim" && t.containsDeep(peeled) {
				t = nil
				break
			}
		}
		if t == nil {
			continue
		}
		fs := rowFields(t)
		if !fs[want] && !fs[strings.ToLower(want)] && len(fs) == 0 {
			return "the " + f + " that is reported is not the one of the entry: " + t.String()
		}
		for g := range fs {
			if !strings.EqualFold(g, want) {
				return "instead of the " + f + " the " + g + " is reported"
			}
		}
	}
	if row != nil && !r.rowDescribes(x, row, name) {
		return "another entry is described"
	}
	return ""
}

// rowDescribes: the row is what the index answered for the entry.
func (r *Run) rowDescribes(x *Exit, row *Term, name string) bool {
	for _, ev := range x.events() {
		if isLookup(ev) && len(ev.Results) > 0 && ev.Results[0].hasDeep(row) {
			n, _, ok := canon(ev.arg(2))
			return !ok || n == name || strings.HasPrefix(row.Name, "row") && !strings.HasPrefix(row.Name, "row:")
		}
	}
	return true
}

func fsStat(c *Ctx) {
	for _, sp := range spellOf("P/N") {
		for i, k := range []string{"", "file", "dir", "dir/", "", "file", "dir", "dir/"} {
			fc := &fsCase{label: fmt.Sprintf("%q is %q", sp, k), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": k}}, ro: i / 4}
			want := outcome{fails: k == "", result: func(r *Run, x *Exit) string { return r.infoIs(x, x.Results[0], "P/N", k) }}
			if k == "" {
				want.class = eNotExist
			}
			c.judge(c.fsRun("Stat", fc), fc, want)
		}
		fc := &fsCase{label: fmt.Sprintf("%q, index failure", sp), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": "file"}, fail: 1}}
		c.judge(c.fsRun("Stat", fc), fc, outcome{fails: true})
	}
	for _, sp := range []string{"/", ".", "./", ""} {
		fc := &fsCase{label: fmt.Sprintf("root as %q", sp), args: []any{sp}}
		c.judge(c.fsRun("Stat", fc), fc, outcome{result: func(r *Run, x *Exit) string { return r.infoIs(x, x.Results[0], "", "dir") }})
	}
}

// ---- opening ---------------------------------------------------------------------------

// handleFlags is what a file opened with the flags may do.
type handleFlags struct{ read, write, app, trunc bool }

func fileFlags(flag int, ro, implies bool) handleFlags {
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	f := handleFlags{read: acc != os.O_WRONLY || implies}
	if ro {
		f.read = acc != os.O_WRONLY
		return f
	}
	f.write = acc != os.O_RDONLY
	f.app, f.trunc = flag&os.O_APPEND != 0, flag&os.O_TRUNC != 0
	return f
}

func flagString(flag int) string {
	s := []string{[]string{"RDONLY", "WRONLY", "RDWR"}[flag&3]}
	for _, f := range []struct {
		bit  int
		name string
	}{{os.O_APPEND, "APPEND"}, {os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}} {
		if flag&f.bit != 0 {
			s = append(s, f.name)
		}
	}
	return strings.Join(s, "|")
}

// typedField is the only field of a struct that has the type.
func typedField(ptr types.Type, suffix string) *types.Var {
	s := derefStruct(ptr)
	var out *types.Var
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if strings.HasSuffix(s.Field(i).Type().String(), suffix) {
			if out != nil {
				return nil
			}
			out = s.Field(i)
		}
	}
	return out
}

// fileIs: what was opened is a handle on the entry with the right abilities.
func (c *Ctx) fileIs(r *Run, x *Exit, t *Term, name, kind string, want handleFlags, ro bool) string {
	f := strip(t)
	if f.Op == "iface" {
		f = strip(f.Args[0])
	}
	if f.isNil() {
		return "no file is returned"
	}
	s := derefStruct(f.Typ)
	if s == nil {
		return ""
	}
	roles, fsRoles := c.roles("NewFile"), c.roles("NewSTFS")
	get := func(i int) *Term {
		v := roles[i]
		if v == nil {
			return nil
		}
		return strip(r.E.load(x.St, r.E.fieldAddr(f, v), v.Type()))
	}
	for _, p := range []struct {
		file, fs int
		what     string
	}{{0, 0, "read operations"}, {1, 1, "write operations"}, {2, 2, "index"}, {6, 3, "compression level"}, {7, 4, "write cache"}} {
		fv := fsRoles[p.fs]
		if got := get(p.file); got != nil && fv != nil {
			if want := strip(r.E.load(x.St, r.E.fieldAddr(r.Args[0], fv), fv.Type())); got != want {
				return "the file does not use the filesystem's " + p.what
			}
		}
	}
	if p := get(3); p != nil {
		n, slash, ok := canon(p)
		if ok && (n != name || slash != (kind == "dir/")) {
			return "the file stands for another entry"
		}
	}
	if l := get(4); l != nil && !(l.isStr() && l.Name == "") {
		return "the file is treated as a link"
	}
	if l := get(8); l != nil {
		if b := l; b.Op != "fldaddr" || strip(b.Args[0]) != strip(r.Args[0]) {
			return "the file is not protected by the filesystem's lock"
		}
	}
	if i := get(10); i != nil {
		if m := r.infoIs(x, i, name, kind); m != "" {
			return m
		}
	}
	fl := get(5)
	if fl == nil {
		return ""
	}
	has := func(n string) *Term {
		v := nameVar(fl.Typ, n)
		if v == nil {
			return nil
		}
		return strip(r.E.load(x.St, r.E.fieldAddr(fl, v), v.Type()))
	}
	for _, p := range []struct {
		name string
		want bool
		only bool
	}{{"Read", want.read, false}, {"Write", want.write, false}, {"Append", want.app, true}, {"Truncate", want.trunc, true}} {
		v := has(p.name)
		if v == nil || p.only && !want.write {
			continue
		}
		if !v.isBool() || v.isTrue() != p.want {
			return fmt.Sprintf("the file's ability %s is %s instead of %v", p.name, v, p.want)
		}
	}
	wb := typedField(f.Typ, "pkg/cache.WriteCache")
	if wb == nil {
		return ""
	}
	buf := strip(r.E.load(x.St, r.E.fieldAddr(f, wb), wb.Type()))
	entered := r.isNilOn(x, buf) != 1
	size := r.entrySize(x, get(10))
	empty := kind != "file" || size == nil || r.fact(x, r.E.lt(r.E.mkInt(0), size, true)) == -1
	switch {
	case !want.write && entered:
		return "a file that cannot be written to has a write buffer"
	case want.write && want.trunc && !entered && !empty:
		return "opening with truncation keeps the content if nothing is written"
	case entered:
		if find(x.events(), named(opsRcv+"Restore")) != nil && want.trunc {
			return "truncating loads the old content"
		}
		if !want.trunc && find(x.events(), named(opsRcv+"Restore")) == nil {
			return "opening for writing drops the old content"
		}
	}
	return ""
}

// entrySize is the size the file information reports.
func (r *Run) entrySize(x *Exit, info *Term) *Term {
	if info == nil {
		return nil
	}
	m := r.infoMethods(x, info)
	if m["Size"] == nil {
		return nil
	}
	if a, h := r.peelInfo(m["Size"]); a == "Size" {
		return strip(r.E.field(h, "Size", nil))
	}
	return m["Size"]
}

func fsOpen(c *Ctx) {
	fileArgs := func(sp string, flag int) []any { return []any{sp, int64(flag), nil} }
	var flags []int
	for _, acc := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
		for b := 0; b < 16; b++ {
			f := acc
			for i, bit := range []int{os.O_APPEND, os.O_CREATE, os.O_EXCL, os.O_TRUNC} {
				if b&(1<<i) != 0 {
					f |= bit
				}
			}
			flags = append(flags, f)
		}
	}
	perm := func(r *Run) *Term { return r.param(2) }
	for i, flag := range flags {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE == 0 {
			continue // undefined
		}
		// every flag combination, spellings in turn (all of them in depth)
		sps := spellOf("P/N")
		if c.Tier != "thorough" {
			sps = []string{sps[0], sps[1+i%3]}
		}
		for _, sp := range sps {
			for _, implies := range []bool{false, true} {
				if implies && flag&3 != os.O_WRONLY {
					continue
				}
				ff := fileFlags(flag, false, implies)
				label := func(what string) string { return fmt.Sprintf("%q %s, %s", sp, flagString(flag), what) }
				is := func(name, kind string) func(r *Run, x *Exit) string {
					return func(r *Run, x *Exit) string { return c.fileIs(r, x, x.Results[0], name, kind, ff, false) }
				}
				run := func(w world, what string, o outcome) {
					fc := &fsCase{label: label(what), args: fileArgs(sp, flag), world: w, implies: implies}
					c.judge(c.fsRun("OpenFile", fc), fc, o)
				}
				// nothing there yet
				if flag&os.O_CREATE == 0 {
					run(world{nodes: map[string]string{"P": "dir"}}, "absent", outcome{fails: true, class: eNotExist})
				} else {
					for _, p := range parentCases() {
						o := outcome{fails: !p.ok, class: p.errs}
						if p.ok {
							o.effects = []effect{creating(c, "P/N", tar.TypeReg, perm)}
							o.result = is("P/N", "file")
						}
						run(world{nodes: map[string]string{"P": p.kind}, creates: []string{"P/N"}, kind: "file"}, fmt.Sprintf("absent, parent %q", p.kind), o)
					}
				}
				// a file
				o := outcome{result: is("P/N", "file")}
				if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
					o = outcome{fails: true, class: eExist}
				}
				run(world{nodes: map[string]string{"P": "dir", "P/N": "file"}}, "a file", o)
				// a directory
				for _, k := range []string{"dir", "dir/"} {
					w := world{nodes: map[string]string{"P": "dir", "P/N": k}}
					switch {
					case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0, flag&3 != os.O_RDONLY:
						run(w, "a directory", outcome{fails: true})
					case flag&(os.O_APPEND|os.O_TRUNC|os.O_CREATE) == 0:
						run(w, "a directory", outcome{result: is("P/N", k)})
					}
				}
				run(world{nodes: map[string]string{"P": "dir", "P/N": "file"}, fail: 1}, "index failure", outcome{fails: true})

				// the same on a read-only filesystem
				rof := fileFlags(flag, true, implies)
				var mayFail []string
				if flag&3 != os.O_RDONLY || flag&(os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
					mayFail = ePerm
				}
				for _, k := range []string{"", "file", "dir", "dir/"} {
					o := outcome{mayFail: mayFail, result: func(r *Run, x *Exit) string { return c.fileIs(r, x, x.Results[0], "P/N", k, rof, true) }}
					if k == "" {
						o = outcome{fails: true, class: eNotExist}
						if mayFail != nil && flag&os.O_CREATE != 0 {
							o.class = ePerm
						} else if mayFail != nil {
							o.class = append(append([]string{}, eNotExist...), ePerm...)
						}
					}
					fc := &fsCase{label: label(fmt.Sprintf("read-only, %q", k)), args: fileArgs(sp, flag), world: world{nodes: map[string]string{"P": "dir", "P/N": k}}, implies: implies, ro: 1}
					c.judge(c.fsRun("OpenFile", fc), fc, o)
				}
			}
		}
	}
	for _, sp := range spellOf("P/N") {
		o := outcome{result: func(r *Run, x *Exit) string {
			return c.fileIs(r, x, x.Results[0], "P/N", "file", handleFlags{read: true}, false)
		}}
		w := world{nodes: map[string]string{"P": "dir", "P/N": "file"}}
		fc := &fsCase{label: fmt.Sprintf("%q", sp), args: []any{sp}, world: w}
		c.judge(c.fsRun("Open", fc), fc, o)
		fc = &fsCase{label: fmt.Sprintf("%q, read-only", sp), args: []any{sp}, world: w, ro: 1}
		c.judge(c.fsRun("Open", fc), fc, o)
		fc = &fsCase{label: fmt.Sprintf("%q, absent", sp), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir"}}}
		c.judge(c.fsRun("Open", fc), fc, outcome{fails: true, class: eNotExist})

		cf := handleFlags{read: true, write: true, trunc: true}
		created := func(r *Run, x *Exit) string { return c.fileIs(r, x, x.Results[0], "P/N", "file", cf, false) }
		fc = &fsCase{label: fmt.Sprintf("%q", sp), args: []any{sp}, world: w}
		c.judge(c.fsRun("Create", fc), fc, outcome{result: created})
		for _, p := range parentCases() {
			fc = &fsCase{label: fmt.Sprintf("%q, absent, parent %q", sp, p.kind), args: []any{sp}, world: world{nodes: map[string]string{"P": p.kind}, creates: []string{"P/N"}, kind: "file"}}
			o := outcome{fails: !p.ok, class: p.errs}
			if p.ok {
				o.effects, o.result = []effect{creating(c, "P/N", tar.TypeReg, func(r *Run) *Term { return r.E.mkInt(0666) })}, created
			}
			c.judge(c.fsRun("Create", fc), fc, o)
		}
		fc = &fsCase{label: fmt.Sprintf("%q, a directory", sp), args: []any{sp}, world: world{nodes: map[string]string{"P": "dir", "P/N": "dir"}}}
		c.judge(c.fsRun("Create", fc), fc, outcome{fails: true})
	}
	for _, sp := range []string{"/", ".", "./"} {
		for ro := 0; ro < 2; ro++ {
			fc := &fsCase{label: fmt.Sprintf("root as %q", sp), args: []any{sp}, ro: ro}
			c.judge(c.fsRun("Open", fc), fc, outcome{result: func(r *Run, x *Exit) string {
				return c.fileIs(r, x, x.Results[0], "", "dir", handleFlags{read: true}, false)
			}})
		}
	}
}

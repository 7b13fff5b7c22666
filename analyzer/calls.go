package main

import (
	"archive/tar"
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/pojntfx/stfs"

func short(s string) string { return strings.ReplaceAll(s, modulePath+"/", "") }

// fnName is the resolved name of a function, module path stripped.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o := f.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return short(tf.FullName())
		}
	}
	return short(f.String())
}

func (e *Engine) callee(env map[ssa.Value]*Term, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var f *Term
	if c.IsInvoke() {
		args = append(args, e.val(env, c.Value))
	} else {
		f = e.val(env, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(env, a))
	}
	return f, args
}

func (e *Engine) doCall(fr *FrameInfo, st *State, c *ssa.CallCommon, env map[ssa.Value]*Term, in ssa.Instruction, pos token.Pos, k func(*State, *Term), exits *[]*Exit) *Term {
	f, args := e.callee(env, c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), args, c, pos)
	}
	return e.invokeTerm(fr, st, c, f, args, in, pos, k, exits)
}

// invokeTerm performs a call. It returns the result when the call was handled
// in place, or nil after having run the continuation for every way the inlined
// callee can return.
func (e *Engine) invokeTerm(fr *FrameInfo, st *State, c *ssa.CallCommon, f *Term, args []*Term, in ssa.Instruction, pos token.Pos, k func(*State, *Term), exits *[]*Exit) *Term {
	sig := c.Signature()
	if c.IsInvoke() {
		recv := args[0]
		m := c.Method
		e.useOf(st, fr, recv, pos)
		if recv.Op == "iface" && recv.Typ != nil && !types.IsInterface(recv.Typ) {
			if fn := e.P.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name()); fn != nil {
				a2 := append([]*Term{recv.Args[0]}, args[1:]...)
				return e.static(fr, st, fn, a2, nil, sig, pos, k, exits)
			}
		}
		return e.external(fr, st, short(m.FullName()), args, sig, pos, m)
	}
	if f.Op == "builtin" {
		return e.builtin(fr, st, f.Name, args, c, pos)
	}
	switch f.Op {
	case "func":
		if f.Fn != nil {
			return e.static(fr, st, f.Fn, args, nil, sig, pos, k, exits)
		}
	case "closure":
		return e.static(fr, st, f.Fn, args, f.Args, sig, pos, k, exits)
	}
	// unknown function value
	if isConfigHeaderSink(c.Value.Type()) {
		e.sinks++
		if e.inInit == 0 && e.known(st, e.eq(f, e.mkNil())) != -1 {
			e.nilSinks[pos] = fr.Fn
		}
		if !e.sinkEvents {
			return e.mkNil()
		}
	}
	ev := e.event(st, fr, dynName(f), append([]*Term{f}, args...), sig, pos, "call")
	ev.DynTy = c.Value.Type()
	for i, a := range args {
		if p := ptrElem(paramType(sig, i)); p != nil && strings.HasSuffix(p.String(), "archive/tar.Header") {
			e.havoc(st, ev, a, i+1, p)
		}
	}
	return e.resultTerm(ev, sig)
}

// dynName: a call of a function stored in an exported configuration field is
// named after the field, e.g. "dyn:BackendConfig.GetWriter".
func dynName(f *Term) string {
	name, owner := "", types.Type(nil)
	switch {
	case f.Op == "deref" && f.Args[0].Op == "fldaddr":
		name, owner = f.Args[0].Name, ptrElem(f.Args[0].Args[0].Typ)
	case f.Op == "fld":
		name, owner = f.Name, f.Args[0].Typ
	}
	if owner == nil || !token.IsExported(name) {
		return "dyn"
	}
	n, ok := types.Unalias(owner).(*types.Named)
	if !ok {
		return "dyn"
	}
	return "dyn:" + n.Obj().Name() + "." + name
}

// isConfigHeaderSink: func(*config.Header) / func(*config.HeaderEvent)
// notification callbacks.
func isConfigHeaderSink(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 0 && s.Params().Len() == 1 && strings.Contains(s.Params().At(0).Type().String(), "pkg/config.Header")
}

func paramType(sig *types.Signature, i int) types.Type {
	if i < sig.Params().Len() {
		return sig.Params().At(i).Type()
	}
	return types.Typ[types.Invalid]
}

func (e *Engine) recursion(fr *FrameInfo, fn *ssa.Function) int {
	n := 0
	for x := fr; x != nil; x = x.Parent {
		if x.Fn == fn {
			n++
		}
	}
	return n
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return e.P.repoPkg(fn.Pkg.Pkg.Path())
	}
	return false
}

func (e *Engine) static(fr *FrameInfo, st *State, fn *ssa.Function, args []*Term, binds []*Term, sig *types.Signature, pos token.Pos, k func(*State, *Term), exits *[]*Exit) *Term {
	name := fnName(fn)
	if r, ok := e.model(fr, st, name, args, sig, pos); ok {
		return r
	}
	wrapper := fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Name() != "init" && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk"))
	if wrapper && fn.Object() != nil && strings.Contains(fn.Synthetic, "bound") {
		// method value: the bound receiver is the free variable
	}
	if len(fn.Blocks) > 0 && fr.Depth < e.MaxDepth && e.recursion(fr, fn) < 2 {
		if wrapper || e.inRepo(fn) && (fn.Parent() != nil || e.Inline == nil || e.Inline(fn)) {
			if e.inInit > 0 && fn.Name() == "init" {
				return e.sym("init", nil)
			}
			xs := e.runFunc(st, fn, args, binds, fr, pos)
			for _, x := range xs {
				if x.Kind != "return" {
					*exits = append(*exits, x)
					continue
				}
				var r *Term
				switch len(x.Results) {
				case 0:
					r = e.mkNil()
				case 1:
					r = x.Results[0]
				default:
					r = e.tt.mk("tuple", "", nil, x.Results...)
				}
				k(x.St, r)
			}
			return nil
		}
	}
	var m *types.Func
	if o, ok := fn.Object().(*types.Func); ok {
		m = o
	}
	return e.external(fr, st, name, args, sig, pos, m)
}

func (e *Engine) external(fr *FrameInfo, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos, m *types.Func) *Term {
	if r, ok := e.model(fr, st, name, args, sig, pos); ok {
		return r
	}
	full := sig
	ev := e.event(st, fr, name, args, full, pos, "call")
	if errMeansNil[name] {
		e.sticky(st, ev)
	}
	if is, ok := mutators[name]; ok {
		for _, i := range is {
			if i < len(args) {
				p := strip(args[i])
				e.havoc(st, ev, p, i, ptrElem(p.Typ))
			}
		}
	}
	return e.resultTerm(ev, sig)
}

// sticky: a tar reader that has failed keeps failing in the same way.
func (e *Engine) sticky(st *State, ev *Event) {
	t := st.trace
	if t != nil && t.Ev == ev {
		t = t.Prev
	}
	for ; t != nil; t = t.Prev {
		if t.Ev.Callee == ev.Callee && len(t.Ev.Args) > 0 && strip(t.Ev.Args[0]) == strip(ev.Args[0]) && t.Ev != ev {
			old := t.Ev.err()
			if old != nil && e.known(st, e.eq(old, e.mkNil())) == -1 {
				e.assume(st, e.eq(ev.err(), e.mkNil()), false)
				for f, v := range st.facts {
					if v && f.isApp("eq") && (f.Args[0] == old && f.Args[1].Op == "gval" || f.Args[1] == old && f.Args[0].Op == "gval") {
						g := f.Args[0]
						if g == old {
							g = f.Args[1]
						}
						defer e.assume(st, e.eq(ev.err(), g), true)
					}
				}
			}
			return
		}
	}
}

// mutators: library calls that overwrite what an argument points to.
var mutators = map[string][]int{
	"encoding/json.Unmarshal":                                    {1},
	"(*encoding/json.Decoder).Decode":                            {1},
	"(*github.com/volatiletech/sqlboiler/v4/queries.Query).Bind": {3},
	"(*aead.dev/minisign.PublicKey).UnmarshalText":               {0},
	"(*aead.dev/minisign.PrivateKey).UnmarshalText":              {0},
	"pkg/encryption.DecryptHeader":                               {0},
	"pkg/encryption.EncryptHeader":                               {0},
	"pkg/signature.SignHeader":                                   {0},
	"pkg/signature.VerifyHeader":                                 {0},
	"(*database/sql.Row).Scan":                                   {},
}

func (e *Engine) havoc(st *State, ev *Event, addr *Term, i int, typ types.Type) {
	e.store(st, strip(addr), e.outOf(ev, i, typ))
}

// outOf is what the call leaves behind its i-th argument.
func (e *Engine) outOf(ev *Event, i int, typ types.Type) *Term {
	if e.Override != nil {
		if t := e.Override(ev, 100+i, typ); t != nil {
			return t
		}
	}
	t := e.tt.mk("res", fmt.Sprintf("%s!out%d", ev.key, i), typ)
	t.Ev, t.Idx = ev, 100+i
	return t
}

// ---- events ----------------------------------------------------------

func (e *Engine) event(st *State, fr *FrameInfo, name string, args []*Term, sig *types.Signature, pos token.Pos, kind string) *Event {
	if strings.HasSuffix(name, "SeekToRecordOnTape") {
		// the drive itself cannot count further
		args = append([]*Term{}, args...)
		for i := range args {
			args[i] = widened(args[i])
		}
	}
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	base := sb.String()
	st.occ["ev:"+base]++
	occ := st.occ["ev:"+base]
	ev := &Event{Callee: name, Args: args, Occ: occ, Pos: pos, Kind: kind, key: base + "@" + strconv.Itoa(occ)}
	if fr != nil {
		ev.In, ev.Frame = fr.Fn, fr
	}
	hasClosure := false
	for _, a := range args {
		s := strip(a)
		if s.Op == "closure" {
			hasClosure = true
		}
		ev.Snap = append(ev.Snap, e.argSnap(st, s))
	}
	e.cur = st
	if sig != nil {
		var ts []types.Type
		for i := 0; i < sig.Results().Len(); i++ {
			ts = append(ts, sig.Results().At(i).Type())
		}
		e.results(ev, ts)
	}
	if hasClosure {
		ev.St = st.clone()
	}
	return e.addEvent(st, ev)
}

// argSnap shows what an argument refers to.
func (e *Engine) argSnap(st *State, a *Term) *Term {
	switch a.Op {
	case "alloc", "fldaddr", "sym", "idx", "res", "elem", "app", "fld", "global":
		if p := ptrElem(a.Typ); p != nil {
			if s, ok := p.Underlying().(*types.Struct); ok && s.NumFields() > 0 && s.NumFields() < 40 {
				return e.snapshot(st, a, p)
			}
			if a.Op == "alloc" {
				return e.load(st, a, p)
			}
		}
		if a.isApp("append") {
			if b := strip(a.Args[0]); b.Op == "sliceof" || b.isApp("append") {
				if l := e.argSnap(st, b); l != nil && l != b {
					return e.tt.mk("app", "append", a.Typ, append([]*Term{l}, a.Args[1:]...)...)
				}
			}
			return a
		}
	case "sliceof":
		n, _ := strconv.Atoi(a.Name)
		if n <= 64 {
			var et types.Type
			if a.Typ != nil {
				if s, ok := a.Typ.Underlying().(*types.Slice); ok {
					et = s.Elem()
				}
			}
			var els []*Term
			for i := 0; i < n; i++ {
				els = append(els, strip(e.load(st, e.tt.mk("idx", "", nil, a.Args[0], e.mkInt(int64(i))), et)))
			}
			return e.app("list", els...)
		}
	case "makemap":
		return e.mapSnap(st, a)
	}
	return nil
}

func (e *Engine) results(ev *Event, ts []types.Type) []*Term {
	for i, t := range ts {
		idx := i
		if len(ts) == 1 {
			idx = -1
		}
		r := e.tt.mk("res", fmt.Sprintf("%s.%d", ev.key, i), t)
		r.Idx = idx
		if r.Ev == nil {
			r.Ev = ev
		}
		if e.Override != nil {
			if o := e.Override(ev, i, t); o != nil {
				r = o
			}
		}
		ev.Results = append(ev.Results, r)
	}
	return ev.Results
}

func (e *Engine) resultTerm(ev *Event, sig *types.Signature) *Term {
	switch len(ev.Results) {
	case 0:
		return e.mkNil()
	case 1:
		return ev.Results[0]
	}
	return e.tt.mk("tuple", "", nil, ev.Results...)
}

func (e *Engine) addEvent(st *State, ev *Event) *Event {
	if e.inInit == 0 {
		if e.Observe != nil {
			ev.Facts = st.facts
			st.frozen = true
			e.Observe(ev, st)
		}
		if e.Relevant != nil && !e.Relevant(ev) {
			ev.Facts = st.facts
			st.frozen = true
			return ev
		}
	}
	var sb strings.Builder
	if st.trace != nil {
		sb.WriteString(strconv.Itoa(st.trace.id))
	}
	sb.WriteByte('|')
	sb.WriteString(ev.Kind)
	sb.WriteByte('|')
	if ev.key == "" {
		sb.WriteString(ev.Callee)
		for _, a := range ev.Args {
			fmt.Fprintf(&sb, " %d", a.ID)
		}
	} else {
		sb.WriteString(ev.key)
	}
	for _, s := range ev.Snap {
		if s == nil {
			sb.WriteString(" -")
		} else {
			fmt.Fprintf(&sb, " %d", s.ID)
		}
	}
	if e.Override != nil { // the answers depend on the scenario
		for _, r := range ev.Results {
			fmt.Fprintf(&sb, " =%d", r.ID)
		}
	}
	if ev.St != nil || ev.Kind == "go" {
		// functions that are handed out use the variables as they are now
		fmt.Fprintf(&sb, " m%x", st.memHash)
	}
	k := sb.String()
	if t, ok := e.traces[k]; ok {
		if ev.St != nil && t.Ev.St != nil {
			t.Ev.St.meet(st)
		}
		// same event reached by several paths: it knows what they all know
		if t.Ev.Facts != nil {
			var n map[*Term]bool
			for f, v := range t.Ev.Facts {
				if w, ok := st.facts[f]; !ok || w != v {
					if n == nil {
						n = map[*Term]bool{}
						for f2, v2 := range t.Ev.Facts {
							n[f2] = v2
						}
					}
					delete(n, f)
				}
			}
			if n != nil {
				t.Ev.Facts = n
			}
		}
		st.trace = t
		return t.Ev
	}
	ev.Facts = st.facts
	st.frozen = true
	n := 1
	if st.trace != nil {
		n = st.trace.N + 1
	}
	t := &Trace{Prev: st.trace, Ev: ev, N: n, id: len(e.traces) + 1}
	e.traces[k] = t
	st.trace = t
	e.nevents++
	return ev
}

// ---- builtins --------------------------------------------------------

func (e *Engine) builtin(fr *FrameInfo, st *State, name string, args []*Term, c *ssa.CallCommon, pos token.Pos) *Term {
	switch name {
	case "len":
		a := strip(args[0])
		if a.Op == "makemap" {
			return e.mkInt(int64(len(e.mapKeys(st, a))))
		}
		if a.Typ == nil && a.Op == "app" && len(c.Args) > 0 {
			a.Typ = c.Args[0].Type()
		}
		if isStringType(c.Args[0].Type()) && a.Typ == nil {
			a.Typ = types.Typ[types.String]
		}
		return e.length(a)
	case "cap":
		return e.app("cap", strip(args[0]))
	case "append":
		return e.appendTerm(st, strip(args[0]), strip(args[1]), c.Args[0].Type())
	case "copy":
		ev := e.event(st, fr, "copy", args, nil, pos, "call")
		return e.results(ev, []types.Type{types.Typ[types.Int]})[0]
	case "delete":
		st.set(e.tt.mk("mapel", "", nil, strip(args[0]), strip(args[1])), e.tt.mk("absent", "", nil))
		return e.mkNil()
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return e.mkNil()
	case "close":
		e.event(st, fr, "close", args, nil, pos, "call")
		return e.mkNil()
	case "print", "println":
		return e.mkNil()
	}
	if name == "min" || name == "max" {
		return e.app(name, args...)
	}
	e.unknown["builtin "+name] = true
	return e.app("builtin:"+name, args...)
}

func (e *Engine) appendTerm(st *State, s, x *Term, typ types.Type) *Term {
	var et types.Type
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		et = sl.Elem()
	}
	if x.isNil() {
		return s
	}
	if x.Op == "sliceof" {
		n, _ := strconv.Atoi(x.Name)
		if n == 0 {
			return s
		}
		if n <= 64 {
			args := []*Term{s}
			if s.isApp("append") {
				args = append([]*Term{}, s.Args...)
			}
			for i := 0; i < n; i++ {
				args = append(args, e.load(st, e.tt.mk("idx", "", types.NewPointer(et), x.Args[0], e.mkInt(int64(i))), et))
			}
			return e.tt.mk("app", "append", typ, args...)
		}
	}
	if isStringType(typ) {
		return e.cat(s, x)
	}
	return e.tt.mk("app", "appendslice", typ, s, x)
}

// ---- library models --------------------------------------------------

// purePkgs: functions whose result depends on their arguments only.
var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "math/bits": true}

var pureFuncs = map[string]bool{
	"context.Background": true, "context.TODO": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"io.NopCloser": true, "io/ioutil.NopCloser": true, "io.TeeReader": true, "io.MultiReader": true, "io.LimitReader": true,
	"bytes.NewBufferString": true, "bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.Equal": true, "bytes.TrimSpace": true,
	"github.com/volatiletech/sqlboiler/v4/queries/qm.Where": true, "github.com/volatiletech/sqlboiler/v4/boil.Infer": true,
	"github.com/volatiletech/sqlboiler/v4/queries/qm.And": true, "github.com/volatiletech/sqlboiler/v4/queries/qm.Or": true,
	"github.com/volatiletech/sqlboiler/v4/queries/qm.Limit": true, "github.com/volatiletech/sqlboiler/v4/queries/qm.OrderBy": true,
	"github.com/volatiletech/sqlboiler/v4/queries/qm.Select": true, "github.com/volatiletech/sqlboiler/v4/queries/qm.WhereIn": true,
	"github.com/volatiletech/sqlboiler/v4/queries/qm.From": true,
	"github.com/pierrec/lz4/v4.CompressionLevelOption":     true, "github.com/pierrec/lz4/v4.ConcurrencyOption": true, "github.com/pierrec/lz4/v4.BlockSizeOption": true,
	"github.com/klauspost/compress/zstd.WithEncoderLevel": true, "github.com/klauspost/compress/zstd.WithWindowSize": true,
	"time.Unix": true, "errors.New": true, "fmt.Errorf": true, "errors.Unwrap": true, "errors.As": true,
	"regexp.MustCompile": true, "(*regexp.Regexp).Match": true, "(*regexp.Regexp).MatchString": true,
}

func pureMethod(name string) bool {
	for _, p := range []string{"(io/fs.FileInfo).", "(io/fs.FileMode).", "(time.Time).", "(error).Error", "(*encoding/base64.Encoding).", "(*filippo.io/age.X25519Identity).", "(*filippo.io/age.X25519Recipient).", "(crypto.Hash).", "(aead.dev/minisign.PublicKey).String", "(*archive/tar.Header).FileInfo", "(io/fs.DirEntry)."} {
		if strings.HasPrefix(name, p) {
			return name != "(crypto.Hash).New"
		}
	}
	return false
}

func pkgOf(name string) string {
	if strings.HasPrefix(name, "(") {
		return ""
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		return name[:i]
	}
	return ""
}

// quiet: logging, never relevant.
// blank: v is the zero value of t, but for empty maps.
func (e *Engine) blank(st *State, v *Term, t types.Type) bool {
	v = strip(v)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v == e.zero(t) {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if !e.blank(st, e.field(v, u.Field(i).Name(), u.Field(i).Type()), u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Map:
		return v.isNil() || v.Op == "makemap" && !st.mapTouched(v)
	}
	return v == e.zero(t)
}

// mapTouched: an element was set in or removed from a map which is or lies in m.
func (s *State) mapTouched(m *Term) bool {
	for k := range s.mem {
		if k.Op == "mapel" && k.Args[0].has(m) {
			return true
		}
	}
	return false
}

func quiet(name string) bool {
	return strings.HasPrefix(name, "(pkg/logging.StructuredLogger).") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).")
}

func (e *Engine) model(fr *FrameInfo, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) (*Term, bool) {
	if quiet(name) {
		return e.mkNil(), true
	}
	a := func(i int) *Term { return strip(args[i]) }
	switch name {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		v := a(0)
		if sn := e.argSnap(st, v); sn != nil {
			v = sn
		}
		return e.tt.mk("tuple", "", nil, e.tt.mk("app", "json", sig.Results().At(0).Type(), v), e.tt.mk("app", "json.err", errorType, v)), true
	case "encoding/json.Unmarshal":
		p := a(1)
		if pt := ptrElem(p.Typ); pt != nil {
			if t := a(0); t.isApp("json") && t.Args[0].Op == "sym" && strings.HasPrefix(t.Args[0].Name, "pax:") {
				e.store(st, p, t.Args[0])
				return e.mkNil(), true
			}
			if prior := e.load(st, p, pt); e.blank(st, prior, pt) {
				e.store(st, p, e.tt.mk("app", "unjson", pt, a(0)))
			} else {
				// what the text does not mention stays as it was
				e.store(st, p, e.tt.mk("app", "unjson", pt, a(0), prior))
			}
			return e.tt.mk("app", "unjson.err", errorType, a(0)), true
		}
	case "errors.Is":
		return e.eq(args[0], args[1]), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		var els []*Term
		if s := a(len(args) - 1); s.Op == "sliceof" {
			els = e.argSnap(st, s).Args
		} else if !s.isNil() {
			break
		}
		if name == "fmt.Sprintf" && a(0).isStr() {
			if t, ok := e.sprintf(a(0).Name, els); ok {
				return t, true
			}
		}
		return e.tt.mk("app", name, types.Typ[types.String], append([]*Term{a(0)}, els...)...), true
	case "strings.Join":
		// joining a literal list
		if s := a(0); s.Op == "sliceof" {
			var parts []*Term
			for i, x := range e.argSnap(st, s).Args {
				if i > 0 {
					parts = append(parts, a(1))
				}
				parts = append(parts, x)
			}
			return e.cat(parts...), true
		}
		if els, ok := e.elemsOf(a(0)); ok {
			var parts []*Term
			for i, x := range els {
				if i > 0 {
					parts = append(parts, a(1))
				}
				parts = append(parts, x)
			}
			if len(parts) == 0 {
				return e.mkStr(""), true
			}
			return e.cat(parts...), true
		}
	case "math.Ceil":
		if a(0).isApp("fquo") {
			return e.ceildiv(a(0).Args[0], a(0).Args[1]), true
		}
		if a(0).isInt() {
			return a(0), true
		}
	case "strconv.Itoa", "strconv.FormatInt":
		if len(args) == 2 && !(a(1).isInt() && a(1).intVal() == 10) {
			break
		}
		if a(0).isInt() {
			return e.mkStr(a(0).Name), true
		}
		return e.tt.mk("app", "itoa", types.Typ[types.String], a(0)), true
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if len(args) == 3 && !(a(1).isInt() && a(1).intVal() == 10 && a(2).isInt() && (a(2).intVal() == 0 || a(2).intVal() == 64)) {
			break // other numbers, or fewer of them
		}
		if a(0).isApp("itoa") {
			return e.tt.mk("tuple", "", nil, a(0).Args[0], e.mkNil()), true
		}
		return e.tt.mk("tuple", "", nil, e.tt.mk("app", "atoi", types.Typ[types.Int64], a(0)), e.tt.mk("app", "atoi.err", errorType, a(0))), true
	case "io.CopyBuffer":
		ev := e.event(st, fr, "io.Copy", args[:2], sig, pos, "call")
		return e.resultTerm(ev, sig), true
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return args[0], true
	case "path/filepath.Join", "path.Join":
		if s := a(0); s.Op == "sliceof" {
			els := e.argSnap(st, s).Args
			if t := e.strModel(st, "path.Join", els); t != nil {
				return t, true
			}
			return e.tt.mk("app", "path.Join", types.Typ[types.String], els...), true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.Contains", "strings.Count", "strings.Split", "strings.SplitN", "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "strings.Replace", "strings.ReplaceAll", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.ContainsRune", "path.Clean", "path.Dir", "path.Base", "path.Split", "path/filepath.Split", "path/filepath.Rel", "path.IsAbs":
		if t := e.strModel(st, name, args); t != nil {
			return t, true
		}
	case "path/filepath.Dir", "path/filepath.Base", "path/filepath.Clean", "path/filepath.IsAbs", "path/filepath.Ext":
		if t := e.strModel(st, name, args); t != nil {
			return t, true
		}
		if t, ok := e.foldPure("path."+name[len("path/filepath."):], args); ok {
			return t, true
		}
		return e.tt.mk("app", "path."+name[len("path/filepath."):], sig.Results().At(0).Type(), a(0)), true
	case "(*archive/tar.Header).FileInfo":
		p := strip(args[0])
		return e.tt.mk("app", "FileInfo", sig.Results().At(0).Type(), e.load(st, p, ptrElem(p.Typ))), true
	case "(io/fs.FileMode).IsDir":
		if m := a(0); m.isApp("(io/fs.FileInfo).Mode") {
			if v, ok := e.isDirHeader(m.Args[0]); ok {
				return e.mkBool(v), true
			}
		}
	case "(io/fs.FileInfo).IsDir":
		if v, ok := e.isDirHeader(a(0)); ok {
			return e.mkBool(v), true
		}
		return e.app("(io/fs.FileMode).IsDir", e.app("(io/fs.FileInfo).Mode", a(0))), true
	case "io/ioutil.ReadAll", "io/ioutil.WriteFile", "io/ioutil.ReadFile":
		n := map[string]string{"io/ioutil.ReadAll": "io.ReadAll", "io/ioutil.WriteFile": "os.WriteFile", "io/ioutil.ReadFile": "os.ReadFile"}[name]
		ev := e.event(st, fr, n, args, sig, pos, "call")
		return e.resultTerm(ev, sig), true
	case "io/ioutil.TempFile":
		ev := e.event(st, fr, "os.CreateTemp", args, sig, pos, "call")
		return e.resultTerm(ev, sig), true
	case "bytes.NewBufferString", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader":
		if len(args) == 1 && !a(0).isNil() {
			return e.tt.mk("app", "reader", sig.Results().At(0).Type(), a(0)), true
		}
	case "io.NopCloser", "io/ioutil.NopCloser":
		return e.tt.mk("app", "nopcloser", sig.Results().At(0).Type(), a(0)), true
	}
	if purePkgs[pkgOf(name)] || pureFuncs[name] || pureMethod(name) {
		if t, ok := e.foldPure(name, args); ok {
			return t, true
		}
		as := make([]*Term, len(args))
		for i := range args {
			as[i] = strip(args[i])
			if as[i].Op == "sliceof" {
				as[i] = e.argSnap(st, as[i])
			}
		}
		n := sig.Results().Len()
		if n == 1 {
			return e.tt.mk("app", name, sig.Results().At(0).Type(), as...), true
		}
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, e.tt.mk("app", name+"."+strconv.Itoa(i), sig.Results().At(i).Type(), as...))
		}
		return e.tt.mk("tuple", "", nil, rs...), true
	}
	return nil, false
}

// isDirHeader: the kind of a header whose type flag and mode are known.
func (e *Engine) isDirHeader(info *Term) (bool, bool) {
	if info = strip(info); !info.isApp("FileInfo") {
		return false, false
	}
	tf, m := strip(e.field(info.Args[0], "Typeflag", nil)), strip(e.field(info.Args[0], "Mode", nil))
	if !tf.isInt() || !m.isInt() {
		return false, false
	}
	return (&tar.Header{Name: "x", Typeflag: byte(tf.intVal()), Mode: m.intVal()}).FileInfo().IsDir(), true
}

func (e *Engine) sprintf(f string, els []*Term) (*Term, bool) {
	var parts []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				parts = append(parts, e.mkStr(f[i:]))
				break
			}
			parts = append(parts, e.mkStr(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		switch f[i] {
		case '%':
			parts = append(parts, e.mkStr("%"))
		case 'v', 's', 'd':
			if k >= len(els) {
				return nil, false
			}
			x := els[k]
			k++
			if x.isInt() {
				x = e.mkStr(x.Name)
			}
			parts = append(parts, x)
		default:
			return nil, false
		}
	}
	return e.cat(parts...), true
}

// foldPure evaluates string functions of constants.
func (e *Engine) foldPure(name string, args []*Term) (*Term, bool) {
	var s []string
	for _, a := range args {
		a = strip(a)
		if !a.isStr() {
			return nil, false
		}
		s = append(s, a.Name)
	}
	switch name {
	case "strings.TrimPrefix":
		return e.mkStr(strings.TrimPrefix(s[0], s[1])), true
	case "strings.TrimSuffix":
		return e.mkStr(strings.TrimSuffix(s[0], s[1])), true
	case "strings.HasPrefix":
		return e.mkBool(strings.HasPrefix(s[0], s[1])), true
	case "strings.HasSuffix":
		return e.mkBool(strings.HasSuffix(s[0], s[1])), true
	case "strings.Contains":
		return e.mkBool(strings.Contains(s[0], s[1])), true
	case "strings.TrimSpace":
		return e.mkStr(strings.TrimSpace(s[0])), true
	case "strings.ToLower":
		return e.mkStr(strings.ToLower(s[0])), true
	}
	return nil, false
}

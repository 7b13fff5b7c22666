package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed provenance value: it says where a value comes from
// (a constant, a parameter, a field of something, the result of a call, a pure
// operation on other terms). Equal terms are pointer-equal.
type Term struct {
	ID   int
	Op   string
	Name string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function
	Poly *poly
	Ev   *Event // for results of calls: the call
	Idx  int
}

type termTable struct {
	m map[string]*Term
	n int
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}} }

func (tt *termTable) mk(op, name string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: op, Name: name, Typ: typ, Args: args}
	tt.m[k] = t
	return t
}

// ---- constants -------------------------------------------------------

func (e *Engine) mkInt(n int64) *Term  { return e.tt.mk("int", strconv.FormatInt(n, 10), nil) }
func (e *Engine) mkStr(s string) *Term { return e.tt.mk("str", s, nil) }
func (e *Engine) mkNil() *Term         { return e.tt.mk("nil", "", nil) }
func (e *Engine) mkBool(b bool) *Term {
	if b {
		return e.tt.mk("bool", "true", nil)
	}
	return e.tt.mk("bool", "false", nil)
}

func (e *Engine) app(name string, args ...*Term) *Term { return e.tt.mk("app", name, nil, args...) }
func (e *Engine) sym(name string, typ types.Type) *Term {
	return e.tt.mk("sym", name, typ)
}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) intVal() int64 {
	n, _ := strconv.ParseInt(t.Name, 10, 64)
	return n
}
func (t *Term) isStr() bool  { return t.Op == "str" }
func (t *Term) isNil() bool  { return t.Op == "nil" }
func (t *Term) isBool() bool { return t.Op == "bool" }
func (t *Term) isTrue() bool { return t.Op == "bool" && t.Name == "true" }
func (t *Term) isFalse() bool {
	return t.Op == "bool" && t.Name == "false"
}
func (t *Term) isApp(name string) bool { return t != nil && t.Op == "app" && t.Name == name }

// constLike: terms that denote one fixed value which is different from every
// other constLike term (constants, error variables, functions).
func (t *Term) constLike() bool {
	switch t.Op {
	case "int", "str", "bool", "nil", "flt", "func":
		return true
	case "gval": // value of a never reassigned package variable of type error
		return true
	}
	return false
}

// strip removes interface wrapping.
func strip(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// ---- polynomials -----------------------------------------------------

type poly struct {
	c     int64
	terms map[string]*mono // key: sorted atom ids
}
type mono struct {
	coef  int64
	atoms []*Term
}

func monoKey(atoms []*Term) string {
	ids := make([]string, len(atoms))
	for i, a := range atoms {
		ids[i] = strconv.Itoa(a.ID)
	}
	return strings.Join(ids, ".")
}

func (e *Engine) toPoly(t *Term) *poly {
	t = strip(t)
	if t.isInt() {
		return &poly{c: t.intVal(), terms: map[string]*mono{}}
	}
	if t.Poly != nil {
		return t.Poly
	}
	return &poly{terms: map[string]*mono{monoKey([]*Term{t}): {1, []*Term{t}}}}
}

func (p *poly) clone() *poly {
	q := &poly{c: p.c, terms: map[string]*mono{}}
	for k, m := range p.terms {
		q.terms[k] = &mono{m.coef, m.atoms}
	}
	return q
}

func (p *poly) add(q *poly, k int64) *poly {
	r := p.clone()
	r.c += k * q.c
	for key, m := range q.terms {
		if x, ok := r.terms[key]; ok {
			x.coef += k * m.coef
			if x.coef == 0 {
				delete(r.terms, key)
			}
		} else if k*m.coef != 0 {
			r.terms[key] = &mono{k * m.coef, m.atoms}
		}
	}
	return r
}

func (p *poly) mul(q *poly) *poly {
	r := &poly{c: p.c * q.c, terms: map[string]*mono{}}
	addm := func(coef int64, atoms []*Term) {
		if coef == 0 {
			return
		}
		k := monoKey(atoms)
		if x, ok := r.terms[k]; ok {
			x.coef += coef
			if x.coef == 0 {
				delete(r.terms, k)
			}
		} else {
			r.terms[k] = &mono{coef, atoms}
		}
	}
	for _, m := range p.terms {
		addm(m.coef*q.c, m.atoms)
		for _, n := range q.terms {
			at := append(append([]*Term{}, m.atoms...), n.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
			addm(m.coef*n.coef, at)
		}
	}
	for _, n := range q.terms {
		addm(n.coef*p.c, n.atoms)
	}
	return r
}

func (p *poly) isConst() bool { return len(p.terms) == 0 }

func (p *poly) keys() []string {
	ks := make([]string, 0, len(p.terms))
	for k := range p.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Engine) fromPoly(p *poly) *Term {
	if len(p.terms) == 0 {
		return e.mkInt(p.c)
	}
	if len(p.terms) == 1 && p.c == 0 {
		for _, m := range p.terms {
			if m.coef == 1 && len(m.atoms) == 1 {
				return m.atoms[0]
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", p.c)
	seen := map[int]bool{}
	var args []*Term
	for _, k := range p.keys() {
		m := p.terms[k]
		fmt.Fprintf(&sb, "|%d*%s", m.coef, k)
		for _, a := range m.atoms {
			if !seen[a.ID] {
				seen[a.ID] = true
				args = append(args, a)
			}
		}
	}
	t := e.tt.mk("poly", sb.String(), nil, args...)
	if t.Poly == nil {
		t.Poly = p
	}
	return t
}

func (e *Engine) add(a, b *Term) *Term { return e.fromPoly(e.toPoly(a).add(e.toPoly(b), 1)) }
func (e *Engine) sub(a, b *Term) *Term { return e.fromPoly(e.toPoly(a).add(e.toPoly(b), -1)) }
func (e *Engine) mul(a, b *Term) *Term { return e.fromPoly(e.toPoly(a).mul(e.toPoly(b))) }

func (p *poly) divisible(c int64) bool {
	if c == 0 || p.c%c != 0 {
		return false
	}
	for _, m := range p.terms {
		if m.coef%c != 0 {
			return false
		}
	}
	return true
}

func (p *poly) divBy(c int64) *poly {
	q := p.clone()
	q.c /= c
	for _, m := range q.terms {
		m.coef /= c
	}
	return q
}

func (e *Engine) idiv(a, b *Term) *Term {
	a, b = strip(a), strip(b)
	if a.isInt() && b.isInt() && b.intVal() != 0 {
		return e.mkInt(a.intVal() / b.intVal())
	}
	if b.isInt() {
		c := b.intVal()
		if c == 1 {
			return a
		}
		pa := e.toPoly(a)
		if pa.divisible(c) {
			return e.fromPoly(pa.divBy(c))
		}
		q := pa.clone()
		q.c -= c - 1
		if c > 0 && len(q.terms) > 0 {
			// (x + c-1) / c is the rounded-up quotient
			if pa.c == c-1 || (pa.c > 0 && q.divisible(c)) {
				return e.ceildiv(e.fromPoly(q), b)
			}
		}
	}
	return e.app("idiv", a, b)
}

func (e *Engine) ceildiv(a, b *Term) *Term {
	a, b = strip(a), strip(b)
	if b.isInt() && b.intVal() > 0 {
		pa := e.toPoly(a)
		c := b.intVal()
		if pa.isConst() {
			return e.mkInt((pa.c + c - 1) / c)
		}
		if pa.divisible(c) {
			return e.fromPoly(pa.divBy(c))
		}
	}
	return e.app("ceildiv", a, b)
}

func (e *Engine) rem(a, b *Term) *Term {
	a, b = strip(a), strip(b)
	if a.isInt() && b.isInt() && b.intVal() != 0 {
		return e.mkInt(a.intVal() % b.intVal())
	}
	return e.sub(a, e.mul(b, e.idiv(a, b)))
}

// asRem recognises p == rem(q, n), i.e. q - n*idiv(q,n).
func (e *Engine) asRem(t *Term) (q, n *Term, ok bool) {
	p := e.toPoly(t)
	for _, k := range p.keys() {
		m := p.terms[k]
		for _, a := range m.atoms {
			if a.isApp("idiv") {
				r := e.rem(a.Args[0], a.Args[1])
				if r == t {
					return a.Args[0], a.Args[1], true
				}
			}
		}
	}
	return nil, nil, false
}

// ---- conditions ------------------------------------------------------

func (e *Engine) not(a *Term) *Term {
	if a.isBool() {
		return e.mkBool(!a.isTrue())
	}
	if a.isApp("not") {
		return a.Args[0]
	}
	return e.app("not", a)
}

// nonNil: can never be the nil value.
func nonNilTerm(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "gval", "makemap", "global", "fldaddr", "sliceof", "int", "str", "bool", "nn":
		return true
	case "idx":
		return true
	case "iface":
		return true
	case "app":
		switch t.Name {
		case "append":
			return len(t.Args) > 1
		case "makeslice", "makechan":
			return true
		}
	}
	return false
}

func distinct(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return false
	}
	if a.constLike() && b.constLike() {
		return true
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return true
	}
	return false
}

func (e *Engine) eq(a, b *Term) *Term {
	if b.isNil() && nonNilTerm(a) || a.isNil() && nonNilTerm(b) {
		return e.mkBool(false)
	}
	a, b = strip(a), strip(b)
	if a == b {
		return e.mkBool(true)
	}
	if distinct(a, b) {
		return e.mkBool(false)
	}
	if e.relDiffer && isRel(a) && isRel(b) {
		return e.mkBool(false)
	}
	for _, s := range []*Term{a, b} {
		if (a.isStr() && a.Name == "" || b.isStr() && b.Name == "") && s.isApp("strings.TrimSpace") && len(s.Args) == 1 && visible(s.Args[0]) {
			return e.mkBool(false)
		}
	}
	if a.isApp("nameByte") && b.isInt() && b.intVal() == '/' || b.isApp("nameByte") && a.isInt() && a.intVal() == '/' {
		return e.mkBool(false)
	}
	if a.isStr() && e.strDistinct(b, a.Name) || b.isStr() && e.strDistinct(a, b.Name) {
		return e.mkBool(false)
	}
	if e.relDiffer && (abstractString(a) || abstractString(b)) && bounded(a) && bounded(b) {
		return e.mkBool(false) // spelled differently
	}
	if a.isApp("cat") || b.isApp("cat") {
		if x, y, ok := e.catDiff(a, b); ok {
			return e.eq(x, y)
		}
	}
	if a.isBool() {
		a, b = b, a
	}
	if b.isBool() {
		if b.isTrue() {
			return a
		}
		return e.not(a)
	}
	if a.constLike() || (!b.constLike() && a.ID > b.ID) {
		a, b = b, a
	}
	// integer forms
	if b.isInt() || a.Op == "poly" || b.Op == "poly" {
		p := e.toPoly(a).add(e.toPoly(b), -1)
		if p.isConst() {
			return e.mkBool(p.c == 0)
		}
		if p.c != 0 {
			if pos, neg := polySigns(p); pos && p.c > 0 || neg && p.c < 0 {
				return e.mkBool(false)
			}
		}
		// len(s)==0  <=>  s==""
		if len(p.terms) == 1 && p.c == 0 {
			for _, m := range p.terms {
				if len(m.atoms) == 1 {
					if x := m.atoms[0]; x.isApp("len") && isStringType(x.Args[0].Typ) {
						return e.eq(x.Args[0], e.mkStr(""))
					}
					return e.app("eq", m.atoms[0], e.mkInt(0))
				}
			}
		}
		// move the constant to the right: eq(rest, const)
		rest := p.clone()
		c := -rest.c
		rest.c = 0
		// normalise sign
		ks := rest.keys()
		if rest.terms[ks[0]].coef < 0 {
			rest = (&poly{terms: map[string]*mono{}}).add(rest, -1)
			c = -c
		}
		return e.app("eq", e.fromPoly(rest), e.mkInt(c))
	}
	return e.app("eq", a, b)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lt0 builds the integer condition p < 0 in canonical form.
func (e *Engine) lt0(p *poly) *Term {
	if p.isConst() {
		return e.mkBool(p.c < 0)
	}
	// non-negative atoms
	if pos, neg := polySigns(p); pos && p.c >= 0 {
		return e.mkBool(false)
	} else if neg && p.c < 0 {
		return e.mkBool(true)
	}
	// thresholds of non-negative single atoms: len(x) < 1 <=> len(x)==0
	if len(p.terms) == 1 {
		for _, m := range p.terms {
			if len(m.atoms) == 1 && nonNegAtom(m.atoms[0]) {
				if m.coef == 1 && p.c == -1 {
					return e.eq(m.atoms[0], e.mkInt(0))
				}
				if m.coef == -1 && p.c == 0 {
					return e.not(e.eq(m.atoms[0], e.mkInt(0)))
				}
			}
		}
	}
	// range of remainders: 0 <= rem(q,n) < n
	t := e.fromPoly(p)
	if _, _, ok := e.asRem(t); ok {
		return e.mkBool(false)
	}
	if b, ok := e.remRange(p); ok {
		return e.mkBool(b)
	}
	// canonical sign: leading coefficient positive; p<0 <=> !(-p-1 < 0)
	ks := p.keys()
	if p.terms[ks[0]].coef < 0 {
		q := (&poly{terms: map[string]*mono{}}).add(p, -1)
		q.c -= 1
		return e.not(e.app("lt0", e.fromPoly(q)))
	}
	return e.app("lt0", t)
}

// remRange decides p<0 for p = r - n + c (c<=0: true), p = n - r + c (c>=-1: false),
// p = r + c (c>=0: false), p = -r + c (c<0: true), r a remainder modulo n.
func (e *Engine) remRange(p *poly) (bool, bool) {
	for _, k := range p.keys() {
		for _, a := range p.terms[k].atoms {
			if !a.isApp("idiv") {
				continue
			}
			n := e.toPoly(a.Args[1])
			r := e.toPoly(e.rem(a.Args[0], a.Args[1]))
			if d := p.add(r, -1); d.isConst() && d.c >= 0 {
				return false, true
			}
			if d := p.add(r, 1); d.isConst() && d.c < 0 {
				return true, true
			}
			if d := p.add(r, -1).add(n, 1); d.isConst() && d.c <= 0 {
				return true, true
			}
			if d := p.add(r, 1).add(n, -1); d.isConst() && d.c >= -1 {
				return false, true
			}
		}
	}
	return false, false
}

func nonNegAtom(t *Term) bool {
	return t.isApp("len") || t.isApp("cap") || t.isApp("len1") || t.Op == "sym" && strings.HasPrefix(t.Name, "nat:")
}

func polySigns(p *poly) (allPos, allNeg bool) {
	allPos, allNeg = true, true
	for _, m := range p.terms {
		for _, a := range m.atoms {
			if !nonNegAtom(a) {
				return false, false
			}
		}
		if m.coef < 0 {
			allPos = false
		} else {
			allNeg = false
		}
	}
	return
}

func (e *Engine) lt(a, b *Term, integer bool) *Term {
	if integer {
		return e.lt0(e.toPoly(a).add(e.toPoly(b), -1))
	}
	if strip(a).isStr() && strip(b).isStr() {
		return e.mkBool(strip(a).Name < strip(b).Name)
	}
	return e.app("lt", a, b)
}

// ---- strings ---------------------------------------------------------

func (e *Engine) cat(parts ...*Term) *Term {
	var flat []*Term
	var push func(t *Term)
	push = func(t *Term) {
		t = strip(t)
		if t.isApp("cat") {
			for _, a := range t.Args {
				push(a)
			}
			return
		}
		if t.isStr() {
			if t.Name == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].isStr() {
				flat[n-1] = e.mkStr(flat[n-1].Name + t.Name)
				return
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		push(p)
	}
	if len(flat) == 0 {
		return e.mkStr("")
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return e.tt.mk("app", "cat", types.Typ[types.String], flat...)
}

// ---- struct values ---------------------------------------------------

// with(base; f=v...) : Args[0]=base, then alternating names in Name.
func (e *Engine) with(base *Term, names []string, vals []*Term) *Term {
	if len(names) == 0 {
		return base
	}
	m := map[string]*Term{}
	if base.Op == "with" {
		ns := strings.Split(base.Name, ",")
		for i, n := range ns {
			m[n] = base.Args[i+1]
		}
		base = base.Args[0]
	}
	for i, n := range names {
		m[n] = vals[i]
	}
	var ks []string
	for k, v := range m {
		if v == e.field(base, k, nil) {
			continue
		}
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return base
	}
	sort.Strings(ks)
	args := []*Term{base}
	for _, k := range ks {
		args = append(args, m[k])
	}
	return e.tt.mk("with", strings.Join(ks, ","), base.Typ, args...)
}

func (e *Engine) field(v *Term, name string, typ types.Type) *Term {
	v = strip(v)
	switch v.Op {
	case "with":
		for i, n := range strings.Split(v.Name, ",") {
			if n == name {
				return v.Args[i+1]
			}
		}
		return e.field(v.Args[0], name, typ)
	case "zero":
		if typ == nil {
			if st, ok := v.Typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == name {
						typ = st.Field(i).Type()
					}
				}
			}
		}
		return e.zero(typ)
	}
	return e.tt.mk("fld", name, typ, v)
}

func (e *Engine) zero(t types.Type) *Term {
	if t == nil {
		return e.mkNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return e.mkBool(false)
		case u.Info()&types.IsNumeric != 0:
			return e.mkInt(0)
		}
		return e.mkNil()
	case *types.Struct, *types.Array:
		return e.tt.mk("zero", t.String(), t)
	}
	return e.mkNil()
}

// ---- printing --------------------------------------------------------

func shortType(s string) string {
	s = strings.ReplaceAll(s, modulePath+"/", "")
	return s
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	switch t.Op {
	case "int", "bool", "flt":
		return t.Name
	case "str":
		return strconv.Quote(t.Name)
	case "nil":
		return "nil"
	case "sym", "gval", "global", "func":
		return shortType(t.Name)
	case "alloc":
		return "&" + shortType(t.Name)
	case "closure":
		return "closure(" + shortType(t.Name) + ")"
	case "fldaddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Name
	case "idx":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "deref":
		return "*" + t.Args[0].str(d+1)
	case "fld":
		return t.Args[0].str(d+1) + "." + t.Name
	case "iface":
		return t.Args[0].str(d)
	case "zero":
		return shortType(t.Name) + "{}"
	case "res":
		s := t.Name
		if t.Ev != nil {
			s = fmt.Sprintf("%s#%d", t.Ev.Callee, t.Ev.Occ)
			if len(t.Ev.Args) > 0 && d < 3 {
				var as []string
				for _, a := range t.Ev.Args {
					as = append(as, a.str(d+3))
				}
				s = fmt.Sprintf("%s(%s)#%d", t.Ev.Callee, strings.Join(as, ","), t.Ev.Occ)
			}
			if t.Idx >= 0 {
				s += fmt.Sprintf(".%d", t.Idx)
			}
		}
		return shortType(s)
	case "with":
		var as []string
		for i, n := range strings.Split(t.Name, ",") {
			as = append(as, n+":"+t.Args[i+1].str(d+1))
		}
		return t.Args[0].str(d+1) + "{" + strings.Join(as, ",") + "}"
	case "poly":
		p := t.Poly
		var as []string
		for _, k := range p.keys() {
			m := p.terms[k]
			var xs []string
			if m.coef != 1 {
				xs = append(xs, strconv.FormatInt(m.coef, 10))
			}
			for _, a := range m.atoms {
				xs = append(xs, a.str(d+1))
			}
			as = append(as, strings.Join(xs, "*"))
		}
		if p.c != 0 {
			as = append(as, strconv.FormatInt(p.c, 10))
		}
		return "(" + strings.Join(as, "+") + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	n := t.Name
	if t.Op != "app" {
		n = t.Op + ":" + n
	}
	return shortType(n) + "(" + strings.Join(as, ",") + ")"
}

// contains reports whether sub occurs anywhere inside t (not looking through
// the arguments of calls that produced results, unless deep).
func (t *Term) contains(pred func(*Term) bool) bool {
	return t.containsD(pred, false, map[*Term]bool{})
}

func (t *Term) containsDeep(pred func(*Term) bool) bool {
	return t.containsD(pred, true, map[*Term]bool{})
}

func (t *Term) containsD(pred func(*Term) bool, deep bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.containsD(pred, deep, seen) {
			return true
		}
	}
	if t.Poly != nil {
		for _, m := range t.Poly.terms {
			for _, a := range m.atoms {
				if a.containsD(pred, deep, seen) {
					return true
				}
			}
		}
	}
	if deep && t.Ev != nil {
		for _, a := range t.Ev.Args {
			if a.containsD(pred, deep, seen) {
				return true
			}
		}
		for _, a := range t.Ev.Snap {
			if a.containsD(pred, deep, seen) {
				return true
			}
		}
	}
	return false
}

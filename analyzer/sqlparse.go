package main

import (
	"fmt"
	"sort"
	"strings"
)

// A small SQL reader for the statements the index uses: enough to decide which
// rows a statement selects (as a propositional formula over canonical atoms),
// which columns it sets and how it orders.

type sx struct {
	op   string // col, lit, num, par, fn, bin, not, and, or, in, sel, star
	s    string
	args []*sx
	t    *Term // par
	sel  *sqlStmt
}

type sqlStmt struct {
	kind    string // select, update, delete
	table   string
	cols    []sqlCol
	sets    []sqlCol
	where   *sx
	order   []sqlOrd
	limit   *sx
	grouped bool
}

type sqlCol struct {
	e  *sx
	as string
}

type sqlOrd struct {
	e    *sx
	desc bool
}

type sqlParser struct {
	toks  []string
	kinds []byte // i identifier, n number, s string, o operator, p parameter
	pos   int
	args  []*Term
	next  int
	err   error
}

func (p *sqlParser) fail(f string, a ...any) {
	if p.err == nil {
		p.err = fmt.Errorf(f, a...)
	}
}

func (p *sqlParser) lex(s string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`':
			var b strings.Builder
			i++
			for i < len(s) {
				if s[i] == c {
					if i+1 < len(s) && s[i+1] == c {
						b.WriteByte(c)
						i += 2
						continue
					}
					break
				}
				b.WriteByte(s[i])
				i++
			}
			if i >= len(s) {
				p.fail("unterminated string")
			}
			i++
			k := byte('s')
			if c == '`' || c == '"' && (i < len(s) && s[i] == '.' || len(p.toks) > 0 && p.toks[len(p.toks)-1] == ".") {
				k = 'i'
			}
			p.toks, p.kinds = append(p.toks, b.String()), append(p.kinds, k)
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			p.toks, p.kinds = append(p.toks, s[i:j]), append(p.kinds, 'n')
			i = j
		case c == '?' || c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			p.toks, p.kinds = append(p.toks, s[i:j]), append(p.kinds, 'p')
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks, p.kinds = append(p.toks, strings.ToLower(s[i:j])), append(p.kinds, 'i')
			i = j
		default:
			for _, o := range []string{"<>", "!=", "<=", ">=", "==", "||"} {
				if strings.HasPrefix(s[i:], o) {
					p.toks, p.kinds = append(p.toks, o), append(p.kinds, 'o')
					i += 2
					goto next
				}
			}
			p.toks, p.kinds = append(p.toks, string(c)), append(p.kinds, 'o')
			i++
		next:
		}
	}
}

func (p *sqlParser) peek(w string) bool {
	return p.pos < len(p.toks) && p.kinds[p.pos] != 's' && p.toks[p.pos] == w
}

func (p *sqlParser) eat(ws ...string) bool {
	for i, w := range ws {
		if p.pos+i >= len(p.toks) || p.kinds[p.pos+i] == 's' || p.toks[p.pos+i] != w {
			return false
		}
	}
	p.pos += len(ws)
	return true
}

func (p *sqlParser) want(w string) {
	if !p.eat(w) {
		got := "end"
		if p.pos < len(p.toks) {
			got = p.toks[p.pos]
		}
		p.fail("expected %q, found %q", w, got)
	}
}

func (p *sqlParser) ident() string {
	if p.pos < len(p.toks) && (p.kinds[p.pos] == 'i' || p.kinds[p.pos] == 's') {
		s := p.toks[p.pos]
		p.pos++
		for p.eat(".") {
			if p.pos < len(p.toks) {
				s = p.toks[p.pos]
				p.pos++
			}
		}
		return s
	}
	p.fail("expected a name")
	return ""
}

func (p *sqlParser) stmt() *sqlStmt {
	s := &sqlStmt{}
	switch {
	case p.eat("select"):
		s.kind = "select"
		p.eat("distinct")
		for {
			c := sqlCol{e: p.expr()}
			if p.eat("as") {
				c.as = p.ident()
			} else if c.e.op == "col" {
				c.as = c.e.s
			}
			s.cols = append(s.cols, c)
			if !p.eat(",") {
				break
			}
		}
		if p.eat("from") {
			s.table = p.ident()
		}
	case p.eat("update"):
		s.kind = "update"
		s.table = p.ident()
		p.want("set")
		for {
			n := p.ident()
			p.want("=")
			s.sets = append(s.sets, sqlCol{p.expr(), n})
			if !p.eat(",") {
				break
			}
		}
	case p.eat("delete", "from"):
		s.kind = "delete"
		s.table = p.ident()
	default:
		p.fail("unknown statement")
		return s
	}
	if p.eat("where") {
		s.where = p.expr()
	}
	if p.eat("group", "by") {
		s.grouped = true
		p.expr()
	}
	if p.eat("order", "by") {
		for {
			o := sqlOrd{e: p.expr()}
			if p.eat("desc") {
				o.desc = true
			} else {
				p.eat("asc")
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("limit") {
		s.limit = p.expr()
	}
	p.eat(";")
	return s
}

func (p *sqlParser) expr() *sx {
	a := p.and()
	for p.eat("or") {
		a = &sx{op: "or", args: []*sx{a, p.and()}}
	}
	return a
}

func (p *sqlParser) and() *sx {
	a := p.notx()
	for p.eat("and") {
		a = &sx{op: "and", args: []*sx{a, p.notx()}}
	}
	return a
}

func (p *sqlParser) notx() *sx {
	if p.eat("not") {
		return &sx{op: "not", args: []*sx{p.notx()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *sx {
	a := p.sum()
	for {
		neg := false
		save := p.pos
		if p.eat("not") {
			neg = true
		}
		var r *sx
		switch {
		case p.eat("in"):
			p.want("(")
			r = &sx{op: "in", args: []*sx{a}}
			if p.peek("select") {
				r.sel = p.stmt()
			} else {
				for {
					r.args = append(r.args, p.expr())
					if !p.eat(",") {
						break
					}
				}
			}
			p.want(")")
		case p.eat("like"):
			r = &sx{op: "bin", s: "like", args: []*sx{a, p.sum()}}
			if p.eat("escape") {
				r.args = append(r.args, p.sum())
			}
		case p.eat("glob"):
			r = &sx{op: "bin", s: "glob", args: []*sx{a, p.sum()}}
		case neg:
			p.pos = save
			return a
		case p.eat("is", "not"):
			r = &sx{op: "not", args: []*sx{{op: "bin", s: "=", args: []*sx{a, p.sum()}}}}
		case p.eat("is"):
			r = &sx{op: "bin", s: "=", args: []*sx{a, p.sum()}}
		case p.eat("=") || p.eat("=="):
			r = &sx{op: "bin", s: "=", args: []*sx{a, p.sum()}}
		case p.eat("!=") || p.eat("<>"):
			r = &sx{op: "not", args: []*sx{{op: "bin", s: "=", args: []*sx{a, p.sum()}}}}
		case p.eat("<"):
			r = &sx{op: "bin", s: "<", args: []*sx{a, p.sum()}}
		case p.eat(">"):
			r = &sx{op: "bin", s: "<", args: []*sx{p.sum(), a}}
		case p.eat("<="):
			r = &sx{op: "not", args: []*sx{{op: "bin", s: "<", args: []*sx{p.sum(), a}}}}
		case p.eat(">="):
			r = &sx{op: "not", args: []*sx{{op: "bin", s: "<", args: []*sx{a, p.sum()}}}}
		default:
			return a
		}
		if neg {
			r = &sx{op: "not", args: []*sx{r}}
		}
		a = r
	}
}

func (p *sqlParser) sum() *sx {
	a := p.mul()
	for {
		switch {
		case p.eat("+"):
			a = &sx{op: "bin", s: "+", args: []*sx{a, p.mul()}}
		case p.eat("-"):
			a = &sx{op: "bin", s: "-", args: []*sx{a, p.mul()}}
		default:
			return a
		}
	}
}

func (p *sqlParser) mul() *sx {
	a := p.unary()
	for {
		switch {
		case p.eat("*"):
			a = &sx{op: "bin", s: "*", args: []*sx{a, p.unary()}}
		case p.eat("/"):
			a = &sx{op: "bin", s: "/", args: []*sx{a, p.unary()}}
		case p.eat("||"):
			a = &sx{op: "bin", s: "||", args: []*sx{a, p.unary()}}
		default:
			return a
		}
	}
}

func (p *sqlParser) unary() *sx {
	if p.pos >= len(p.toks) {
		p.fail("unexpected end")
		return &sx{op: "lit"}
	}
	t, k := p.toks[p.pos], p.kinds[p.pos]
	switch {
	case k == 'p':
		p.pos++
		n := p.next
		if len(t) > 1 {
			fmt.Sscan(t[1:], &n)
			n--
			if n+1 > p.next {
				p.next = n + 1
			}
		} else {
			p.next++
		}
		if n >= len(p.args) {
			p.fail("more placeholders than arguments")
			return &sx{op: "par"}
		}
		a := strip(p.args[n])
		if a.isStr() {
			return &sx{op: "lit", s: a.Name}
		}
		if a.isInt() {
			return &sx{op: "num", s: a.Name}
		}
		return &sx{op: "par", t: a}
	case k == 's':
		p.pos++
		return &sx{op: "lit", s: t}
	case k == 'n':
		p.pos++
		return &sx{op: "num", s: t}
	case t == "-":
		p.pos++
		return &sx{op: "bin", s: "-", args: []*sx{{op: "num", s: "0"}, p.unary()}}
	case t == "(":
		p.pos++
		var e *sx
		if p.peek("select") {
			e = &sx{op: "sel", sel: p.stmt()}
		} else {
			e = p.expr()
		}
		p.want(")")
		return e
	case t == "*":
		p.pos++
		return &sx{op: "star"}
	case k == 'i':
		name := p.ident()
		if p.eat("(") {
			f := &sx{op: "fn", s: name}
			for !p.peek(")") && p.err == nil {
				f.args = append(f.args, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			return f
		}
		return &sx{op: "col", s: name}
	}
	p.fail("unexpected %q", t)
	p.pos++
	return &sx{op: "lit"}
}

func parseSQL(s string, args []*Term) (*sqlStmt, error) {
	p := &sqlParser{args: args}
	p.lex(s)
	st := p.stmt()
	if p.err == nil && p.pos < len(p.toks) {
		p.fail("trailing %q", p.toks[p.pos])
	}
	if p.err == nil && p.next != len(args) {
		p.fail("%d placeholders for %d arguments", p.next, len(args))
	}
	return st, p.err
}

func parseCond(s string, args []*Term) (*sx, error) {
	p := &sqlParser{args: args}
	p.lex(s)
	e := p.expr()
	if p.err == nil && p.pos < len(p.toks) {
		p.fail("trailing %q", p.toks[p.pos])
	}
	if p.err == nil && p.next != len(args) {
		p.fail("%d placeholders for %d arguments", p.next, len(args))
	}
	return e, p.err
}

// inline replaces column aliases of the select list.
func (s *sqlStmt) inline(e *sx) *sx {
	if e == nil {
		return nil
	}
	if e.op == "col" {
		for _, c := range s.cols {
			if c.as == e.s && c.e.op != "col" {
				return c.e
			}
		}
		return e
	}
	n := *e
	n.args = nil
	for _, a := range e.args {
		n.args = append(n.args, s.inline(a))
	}
	return &n
}

// key is the canonical spelling of a value expression.
func (e *sx) key() string {
	if e == nil {
		return "-"
	}
	switch e.op {
	case "col":
		return e.s
	case "lit":
		return "'" + e.s + "'"
	case "num":
		return e.s
	case "par":
		if e.t == nil {
			return "?"
		}
		return fmt.Sprintf("?%d", e.t.ID)
	case "fn":
		n := e.s
		if n == "substring" {
			n = "substr"
		}
		var as []string
		for _, a := range e.args {
			as = append(as, a.key())
		}
		if n == "substr" && len(as) == 2 && (as[1] == "(1+length(''))" || as[1] == "1") {
			return as[0]
		}
		return n + "(" + strings.Join(as, ",") + ")"
	case "bin":
		a, b := e.args[0].key(), e.args[1].key()
		if (e.s == "=" || e.s == "+" || e.s == "*") && a > b {
			a, b = b, a
		}
		r := "(" + a + e.s + b + ")"
		if len(e.args) > 2 {
			r += "esc" + e.args[2].key()
		}
		return r
	case "sel":
		return "(" + e.sel.key() + ")"
	case "star":
		return "*"
	}
	return e.formula().String()
}

func (s *sqlStmt) key() string {
	var cs []string
	for _, c := range s.cols {
		cs = append(cs, c.e.key())
	}
	w := "true"
	if s.where != nil {
		w = s.inline(s.where).formula().String()
	}
	return "select " + strings.Join(cs, ",") + " from " + s.table + " where " + w
}

// ---- propositional formulas --------------------------------------------------

type form struct {
	op   string // true, false, atom, not, and, or
	atom string
	args []*form
}

func (f *form) String() string {
	switch f.op {
	case "atom":
		return f.atom
	case "true", "false":
		return f.op
	}
	var as []string
	for _, a := range f.args {
		as = append(as, a.String())
	}
	sort.Strings(as)
	return f.op + "[" + strings.Join(as, " ; ") + "]"
}

func fTrue() *form          { return &form{op: "true"} }
func fAtom(s string) *form  { return &form{op: "atom", atom: s} }
func fNot(a *form) *form    { return &form{op: "not", args: []*form{a}} }
func fAnd(a ...*form) *form { return &form{op: "and", args: a} }
func fOr(a ...*form) *form  { return &form{op: "or", args: a} }
func (f *form) lits(m map[string]bool) {
	if f.op == "atom" {
		m[f.atom] = true
	}
	for _, a := range f.args {
		a.lits(m)
	}
}

func (f *form) eval(v map[string]bool) bool {
	switch f.op {
	case "true":
		return true
	case "false":
		return false
	case "atom":
		return v[f.atom]
	case "not":
		return !f.args[0].eval(v)
	case "and":
		for _, a := range f.args {
			if !a.eval(v) {
				return false
			}
		}
		return true
	}
	for _, a := range f.args {
		if a.eval(v) {
			return true
		}
	}
	return false
}

// implied: every assignment of the atoms that satisfies a satisfies b.
func implied(a, b *form) bool {
	m := map[string]bool{}
	a.lits(m)
	b.lits(m)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 16 {
		return false
	}
	v := map[string]bool{}
	for n := 0; n < 1<<len(ks); n++ {
		for i, k := range ks {
			v[k] = n>>i&1 == 1
		}
		if !consistent(v) {
			continue
		}
		if a.eval(v) && !b.eval(v) {
			return false
		}
	}
	return true
}

// consistent: a value equals at most one constant.
func consistent(v map[string]bool) bool {
	seen := map[string]bool{}
	for k, on := range v {
		if !on || !strings.HasPrefix(k, "eq ") {
			continue
		}
		f := strings.SplitN(k[3:], " = ", 2)
		if len(f) == 2 && (strings.HasPrefix(f[1], "'") || f[1][0] >= '0' && f[1][0] <= '9') {
			if seen[f[0]] {
				return false
			}
			seen[f[0]] = true
		}
	}
	return true
}

func equivalent(a, b *form) bool { return implied(a, b) && implied(b, a) }

func eqAtom(a, b string) *form {
	isConst := func(s string) bool { return s != "" && (s[0] == '\'' || s[0] >= '0' && s[0] <= '9') }
	if isConst(a) && !isConst(b) || !isConst(a) && !isConst(b) && a > b {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		if a == b {
			return fTrue()
		}
		return &form{op: "false"}
	}
	return fAtom("eq " + a + " = " + b)
}

// formula turns a condition into a formula over canonical atoms. The deleted
// flag is 0 or 1; a name starts with a prefix however that is spelled.
func (e *sx) formula() *form {
	if e == nil {
		return fTrue()
	}
	switch e.op {
	case "and", "or", "not":
		f := &form{op: e.op}
		for _, a := range e.args {
			f.args = append(f.args, a.formula())
		}
		return f
	case "num":
		if e.s == "0" {
			return &form{op: "false"}
		}
		return fTrue()
	case "col":
		if e.s == "true" {
			return fTrue()
		}
		if e.s == "false" {
			return &form{op: "false"}
		}
		if e.s == "deleted" {
			return eqAtom("deleted", "1")
		}
		return fAtom(e.s)
	case "in":
		if e.sel != nil {
			return fAtom(e.args[0].key() + " in (" + e.sel.key() + ")")
		}
		f := &form{op: "or"}
		for _, a := range e.args[1:] {
			f.args = append(f.args, (&sx{op: "bin", s: "=", args: []*sx{e.args[0], a}}).formula())
		}
		return f
	case "bin":
		switch e.s {
		case "=":
			for i := 0; i < 2; i++ {
				a, b := e.args[i], e.args[1-i]
				if a.op == "col" && a.s == "deleted" && b.op == "num" {
					if b.s == "0" {
						return fNot(eqAtom("deleted", "1"))
					}
					return eqAtom("deleted", b.s)
				}
				// substr(x, 1, length(p)) = p
				if a.op == "fn" && (a.s == "substr" || a.s == "substring") && len(a.args) == 3 && a.args[1].key() == "1" {
					if b.op == "lit" && b.s == "" && a.args[2].key() == "length('')" {
						return fTrue()
					}
					if a.args[2].key() == "length("+b.key()+")" || b.op == "lit" && a.args[2].key() == fmt.Sprint(len([]rune(b.s))) {
						return fAtom("prefix " + a.args[0].key() + " " + b.key())
					}
				}
				// instr(x, p) = 1
				if a.op == "fn" && a.s == "instr" && len(a.args) == 2 && b.key() == "1" {
					return fAtom("prefix " + a.args[0].key() + " " + a.args[1].key())
				}
				// substr(x, -1) = 'c'
				if a.op == "fn" && a.s == "substr" && b.op == "lit" && len(b.s) == 1 && (len(a.args) == 2 && a.args[1].key() == "(0-1)" || len(a.args) == 3 && a.args[1].key() == "(0-1)" && a.args[2].key() == "1") {
					return fAtom("suffix " + a.args[0].key() + " " + b.key())
				}
			}
			return eqAtom(e.args[0].key(), e.args[1].key())
		case "like":
			// a constant pattern without wildcards inside is a prefix or a suffix
			if b := e.args[1]; b.op == "lit" && len(e.args) == 2 {
				in := strings.Trim(b.s, "%")
				if !strings.ContainsAny(in, "%_") && strings.ToLower(in) == strings.ToUpper(in) {
					switch b.s {
					case "%" + in:
						return fAtom("suffix " + e.args[0].key() + " '" + in + "'")
					case in + "%":
						return fAtom("prefix " + e.args[0].key() + " '" + in + "'")
					}
				}
			}
		case "<":
			a, b := e.args[0], e.args[1]
			if a.key() == "deleted" && b.key() == "1" {
				return fNot(eqAtom("deleted", "1"))
			}
			if a.key() == "0" && b.key() == "deleted" {
				return eqAtom("deleted", "1")
			}
		}
		return fAtom(e.key())
	case "lit":
		return &form{op: "false"}
	}
	return fAtom(e.key())
}

// patterns lists the pattern matches against something that is not a constant.
func (e *sx) patterns() []string {
	if e == nil {
		return nil
	}
	var out []string
	if e.op == "bin" && (e.s == "like" || e.s == "glob") && e.args[1].op != "lit" {
		out = append(out, e.s)
	}
	if e.sel != nil {
		out = append(out, e.sel.where.patterns()...)
	}
	for _, a := range e.args {
		out = append(out, a.patterns()...)
	}
	return out
}

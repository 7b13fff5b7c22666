package main

import (
	"go/types"
	"path"
	"path/filepath"
	"strings"
)

// Strings built from constants and "clean relative path" symbols: a symbol
// named "rel:…" stands for any non-empty relative path in its shortest
// spelling that does not leave its directory (so it behaves like one path
// component under the path package). Nothing else is known about its characters:
// it may begin with a dot.

func isRel(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Name, "rel:") }

// relStartsNot: no such path, whatever follows it, begins with s.
func relStartsNot(s string) bool {
	return s[0] == '/' || strings.HasPrefix(s, "./") || strings.HasPrefix(s, "../")
}

func (e *Engine) relSym(n string) *Term { return e.sym("rel:"+n, types.Typ[types.String]) }

func parts(t *Term) []*Term {
	t = strip(t)
	if t.isApp("cat") {
		return t.Args
	}
	return []*Term{t}
}

// abstractString: only constants and relative path symbols, at least one symbol.
func abstractString(t *Term) bool {
	rel := false
	for _, p := range parts(t) {
		if isRel(p) {
			rel = true
		} else if !p.isStr() {
			return false
		}
	}
	return rel
}

// spelledOut: made of constants and relative path symbols.
func spelledOut(t *Term) bool { return t.isStr() || abstractString(t) }

// concrete spells an abstract string with a placeholder for each symbol.
func concrete(ts ...*Term) (string, map[string]*Term) {
	var sb strings.Builder
	m := map[string]*Term{}
	for _, t := range ts {
		for _, p := range parts(t) {
			if p.isStr() {
				sb.WriteString(p.Name)
				continue
			}
			k := "\x01" + itoa3(p.ID) + "\x02"
			m[k] = p
			sb.WriteString(k)
		}
	}
	return sb.String(), m
}

func itoa3(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('a'+n%26)) + s
		n /= 26
	}
	return s
}

func (e *Engine) abstracted(s string, m map[string]*Term) *Term {
	var out []*Term
	for len(s) > 0 {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			out = append(out, e.mkStr(s))
			break
		}
		j := strings.IndexByte(s, 2)
		out = append(out, e.mkStr(s[:i]), m[s[i:j+1]])
		s = s[j+1:]
	}
	return e.cat(out...)
}

// strPrefix: 1 the string starts with lit, -1 it does not, 0 unknown.
func (e *Engine) strPrefix(st *State, t *Term, lit string) int {
	ps := parts(t)
	rest := lit
	for i, p := range ps {
		if rest == "" {
			return 1
		}
		if p.isStr() {
			n := len(p.Name)
			if n >= len(rest) {
				if strings.HasPrefix(p.Name, rest) {
					return 1
				}
				return -1
			}
			if !strings.HasPrefix(rest, p.Name) {
				return -1
			}
			rest = rest[n:]
			continue
		}
		if isRel(p) && relStartsNot(rest) {
			return -1
		}
		if st != nil && i == len(ps)-1 {
			return e.known(st, e.app("strings.HasPrefix", p, e.mkStr(rest)))
		}
		return 0
	}
	if rest == "" {
		return 1
	}
	return -1
}

func (e *Engine) strSuffix(st *State, t *Term, lit string) int {
	ps := parts(t)
	rest := lit
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if rest == "" {
			return 1
		}
		if p.isStr() {
			n := len(p.Name)
			if n >= len(rest) {
				if strings.HasSuffix(p.Name, rest) {
					return 1
				}
				return -1
			}
			if !strings.HasSuffix(rest, p.Name) {
				return -1
			}
			rest = rest[:len(rest)-n]
			continue
		}
		if isRel(p) && rest[len(rest)-1] == '/' {
			return -1
		}
		if st != nil && i == 0 {
			return e.known(st, e.app("strings.HasSuffix", p, e.mkStr(rest)))
		}
		return 0
	}
	if rest == "" {
		return 1
	}
	return -1
}

// strModel evaluates string and path functions of abstract strings.
func (e *Engine) strModel(st *State, name string, args []*Term) *Term {
	if st != nil {
		in := args
		args = make([]*Term, len(in))
		for i, a := range in {
			args[i] = e.rep(st, a)
		}
	}
	var s0, s1 *Term
	if len(args) > 0 {
		s0 = strip(args[0])
	}
	if len(args) > 1 {
		s1 = strip(args[1])
	}
	switch name {
	case "strings.HasPrefix":
		if s1.isStr() {
			if k := e.strPrefix(nil, s0, s1.Name); k != 0 && !s0.isStr() {
				return e.mkBool(k == 1)
			}
		}
		if s0.isApp("cutrest") && st != nil {
			// what follows a prefix
			switch e.strTest(st, "strings.HasPrefix", s0.Args[0], s0.Args[1]) {
			case 1:
				if k := e.strTest(st, "strings.HasPrefix", s0.Args[0], e.cat(s0.Args[1], s1)); k != 0 {
					return e.mkBool(k == 1)
				}
			case -1:
				if k := e.strTest(st, "strings.HasPrefix", s0.Args[0], s1); k != 0 {
					return e.mkBool(k == 1)
				}
			}
		}
		if e.relDiffer && abstractString(s1) {
			if k := prefixOf(s0, s1); k != 0 {
				return e.mkBool(k == 1)
			}
		}
	case "strings.HasSuffix":
		if s1.isStr() {
			if k := e.strSuffix(nil, s0, s1.Name); k != 0 && !s0.isStr() {
				return e.mkBool(k == 1)
			}
		}
	case "strings.TrimPrefix":
		if s1.isStr() && !s0.isStr() {
			if s1.Name == "" {
				return s0
			}
			switch e.strPrefix(st, s0, s1.Name) {
			case -1:
				return s0
			case 1:
				if p := parts(s0); p[0].isStr() && len(p[0].Name) >= len(s1.Name) {
					return e.cat(append([]*Term{e.mkStr(p[0].Name[len(s1.Name):])}, p[1:]...)...)
				}
			}
		} else if !s1.isStr() {
			// a prefix made of the very same pieces
			a, b := parts(s0), parts(s1)
			n := 0
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			if n == len(b) {
				return e.cat(a[n:]...)
			}
			if n == len(b)-1 && n < len(a) && b[n].isStr() && a[n].isStr() && strings.HasPrefix(a[n].Name, b[n].Name) {
				return e.cat(append([]*Term{e.mkStr(a[n].Name[len(b[n].Name):])}, a[n+1:]...)...)
			}
			if e.relDiffer && prefixOf(s0, s1) == -1 {
				return s0
			}
		}
	case "strings.TrimSuffix":
		if s1.isStr() && !s0.isStr() {
			if s1.Name == "" {
				return s0
			}
			switch e.strSuffix(st, s0, s1.Name) {
			case -1:
				return s0
			case 1:
				p := parts(s0)
				if l := p[len(p)-1]; l.isStr() && len(l.Name) >= len(s1.Name) {
					return e.cat(append(append([]*Term{}, p[:len(p)-1]...), e.mkStr(l.Name[:len(l.Name)-len(s1.Name)]))...)
				}
			}
		}
	case "strings.TrimLeft":
		if s1.isStr() && s1.Name == "/" && abstractString(s0) {
			p := parts(s0)
			if isRel(p[0]) {
				return s0
			}
			if l := strings.TrimLeft(p[0].Name, "/"); l != "" || isRel(p[1]) {
				return e.cat(append([]*Term{e.mkStr(l)}, p[1:]...)...)
			}
		}
	case "path.Clean", "path/filepath.Clean":
		if spelledOut(s0) {
			s, m := concrete(s0)
			return e.abstracted(path.Clean(s), m)
		}
	case "path.Dir", "path/filepath.Dir":
		if spelledOut(s0) {
			s, m := concrete(s0)
			return e.abstracted(path.Dir(s), m)
		}
	case "path.Base", "path/filepath.Base":
		if spelledOut(s0) {
			s, m := concrete(s0)
			return e.abstracted(path.Base(s), m)
		}
	case "path.Split", "path/filepath.Split":
		if spelledOut(s0) {
			s, m := concrete(s0)
			d, b := path.Split(s)
			return e.tt.mk("tuple", "", nil, e.abstracted(d, m), e.abstracted(b, m))
		}
	case "strings.TrimRight":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, m := concrete(s0)
			return e.abstracted(strings.TrimRight(s, "/"), m)
		}
	case "strings.Trim":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, m := concrete(s0)
			return e.abstracted(strings.Trim(s, "/"), m)
		}
	case "strings.Contains":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, _ := concrete(s0)
			return e.mkBool(strings.Contains(s, "/"))
		}
	case "strings.Count":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, _ := concrete(s0)
			return e.mkInt(int64(strings.Count(s, "/")))
		}
	case "strings.Split":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, m := concrete(s0)
			els := []*Term{e.mkNil()}
			for _, p := range strings.Split(s, "/") {
				els = append(els, e.abstracted(p, m))
			}
			return e.tt.mk("app", "append", types.NewSlice(types.Typ[types.String]), els...)
		}
	case "path/filepath.Rel":
		if spelledOut(s0) && spelledOut(s1) {
			a, m := concrete(s0)
			b, n := concrete(s1)
			for k, v := range n {
				m[k] = v
			}
			if rel, err := filepath.Rel(a, b); err == nil {
				return e.tt.mk("tuple", "", nil, e.abstracted(rel, m), e.mkNil())
			}
		}
	case "strings.SplitN":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) && strip(args[2]).isInt() {
			s, m := concrete(s0)
			els := []*Term{e.mkNil()}
			for _, p := range strings.SplitN(s, "/", int(strip(args[2]).intVal())) {
				els = append(els, e.abstracted(p, m))
			}
			return e.tt.mk("app", "append", types.NewSlice(types.Typ[types.String]), els...)
		}
	case "strings.Cut":
		if s1.isStr() && s1.Name == "/" && spelledOut(s0) {
			s, m := concrete(s0)
			a, b, ok := strings.Cut(s, "/")
			return e.tt.mk("tuple", "", nil, e.abstracted(a, m), e.abstracted(b, m), e.mkBool(ok))
		}
	case "strings.CutPrefix", "strings.CutSuffix":
		has := e.strTest(st, strings.Replace(name, "Cut", "Has", 1), s0, s1)
		if has == -1 {
			return e.tt.mk("tuple", "", nil, s0, e.mkBool(false))
		}
		if rest := e.strModel(st, strings.Replace(name, "Cut", "Trim", 1), args); rest != nil && has == 1 {
			return e.tt.mk("tuple", "", nil, rest, e.mkBool(true))
		}
		if name == "strings.CutPrefix" && spelledOut(s0) && spelledOut(s1) && !(s0.isStr() && s1.isStr()) {
			return e.tt.mk("tuple", "", nil, e.app("cutrest", s0, s1), e.app("strings.HasPrefix", s0, s1))
		}
		if s0.isStr() && s1.isStr() {
			rest := strings.TrimSuffix(s0.Name, s1.Name)
			if name == "strings.CutPrefix" {
				rest = strings.TrimPrefix(s0.Name, s1.Name)
			}
			return e.tt.mk("tuple", "", nil, e.mkStr(rest), e.mkBool(has == 1))
		}
	case "strings.Replace", "strings.ReplaceAll":
		// the first occurrence, where it is at the very beginning
		if n := args[len(args)-1]; name == "strings.Replace" && strip(n).isInt() && strip(n).intVal() == 1 && !(s0.isStr() && s1.isStr()) {
			if e.strTest(st, "strings.HasPrefix", s0, s1) == 1 {
				if rest := e.strModel(st, "strings.TrimPrefix", args[:2]); rest != nil {
					return e.cat(strip(args[2]), rest)
				}
			}
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.ContainsRune":
		if !(s1.isStr() && s1.Name == "/" || s1.isInt() && s1.intVal() == '/') || !spelledOut(s0) {
			break
		}
		s, m := concrete(s0)
		i := strings.Index(s, "/")
		if strings.Contains(name, "Last") {
			i = strings.LastIndex(s, "/")
		}
		if name == "strings.ContainsRune" {
			return e.mkBool(i >= 0)
		}
		if i < 0 {
			return e.mkInt(-1)
		}
		return e.length(e.abstracted(s[:i], m))
	case "path.Join", "path/filepath.Join":
		var lits []string
		all := map[string]*Term{}
		rel := false
		for _, a := range args {
			a = strip(a)
			if !a.isStr() && !abstractString(a) {
				return nil
			}
			rel = true
			s, m := concrete(a)
			lits = append(lits, s)
			for k, v := range m {
				all[k] = v
			}
		}
		if rel {
			return e.abstracted(path.Join(lits...), all)
		}
	case "path.IsAbs", "path/filepath.IsAbs":
		if spelledOut(s0) {
			return e.mkBool(e.strPrefix(nil, s0, "/") == 1)
		}
	}
	return nil
}

// strTest decides strings.HasPrefix or strings.HasSuffix.
func (e *Engine) strTest(st *State, name string, s, p *Term) int {
	if s.isStr() && p.isStr() {
		ok := strings.HasSuffix(s.Name, p.Name)
		if name == "strings.HasPrefix" {
			ok = strings.HasPrefix(s.Name, p.Name)
		}
		if ok {
			return 1
		}
		return -1
	}
	t := e.strModel(st, name, []*Term{s, p})
	if t == nil {
		t = e.app(name, s, p)
	}
	return e.known(st, t)
}

// strSlice is s[lo:hi] where both ends lie within or next to constant pieces.
func (e *Engine) strSlice(s, lo, hi *Term) *Term {
	if !abstractString(s) {
		return nil
	}
	// cut splits the pieces at an offset
	cut := func(at *Term) (before, after []*Term, ok bool) {
		ps, n := parts(s), e.mkInt(0)
		for i, p := range ps {
			d := e.sub(at, n)
			if d.isInt() && d.intVal() == 0 {
				return ps[:i], ps[i:], true
			}
			if p.isStr() && d.isInt() && d.intVal() > 0 && d.intVal() < int64(len(p.Name)) {
				k := int(d.intVal())
				return append(append([]*Term{}, ps[:i]...), e.mkStr(p.Name[:k])), append([]*Term{e.mkStr(p.Name[k:])}, ps[i+1:]...), true
			}
			n = e.add(n, e.length(p))
		}
		if d := e.sub(at, n); d.isInt() && d.intVal() == 0 {
			return ps, nil, true
		}
		return nil, nil, false
	}
	str := func(ps []*Term) *Term {
		if len(ps) == 0 {
			return e.mkStr("")
		}
		return e.cat(ps...)
	}
	if hi.isNil() {
		if _, b, ok := cut(lo); ok {
			return str(b)
		}
		return nil
	}
	a, _, ok := cut(hi)
	if !ok {
		return nil
	}
	if lo.isInt() && lo.intVal() == 0 {
		return str(a)
	}
	return e.strSlice(str(a), lo, e.mkNil())
}

// strIndex is s[i], where that is known: a constant's byte, or the first or last
// byte of a name.
func (e *Engine) strIndex(st *State, s, i *Term) *Term {
	if s.isStr() && i.isInt() && i.intVal() >= 0 && i.intVal() < int64(len(s.Name)) {
		return e.mkInt(int64(s.Name[i.intVal()]))
	}
	if !abstractString(s) {
		return nil
	}
	n := e.mkInt(0)
	for _, p := range parts(s) {
		d := e.sub(i, n)
		if d.isInt() && d.intVal() >= 0 && p.isStr() && d.intVal() < int64(len(p.Name)) {
			return e.mkInt(int64(p.Name[d.intVal()]))
		}
		if d.isInt() && d.intVal() == 0 && isRel(p) {
			return e.app("nameByte", p, e.mkStr("first"))
		}
		n = e.add(n, e.length(p))
		if d := e.sub(n, i); d.isInt() && d.intVal() == 1 && isRel(p) {
			return e.app("nameByte", p, e.mkStr("last"))
		}
	}
	// the byte after a prefix which ends within a name
	for f, v := range st.facts {
		if v && f.isApp("strings.HasPrefix") && strip(f.Args[0]) == s && spelledOut(strip(f.Args[1])) {
			p := strip(f.Args[1])
			if d := e.sub(i, e.length(p)); d.isInt() && d.intVal() == 0 && e.strTest(st, "strings.HasPrefix", s, e.cat(p, e.mkStr("/"))) == -1 {
				return e.app("nameByte", s, p)
			}
		}
	}
	return nil
}

// strDistinct: an abstract string that cannot equal the constant.
func (e *Engine) strDistinct(t *Term, lit string) bool {
	if !abstractString(t) {
		return false
	}
	if e.strPrefix(nil, e.mkStr(lit), "") == 1 { // compare piece by piece
		rest := lit
		for _, p := range parts(t) {
			if p.isStr() {
				if !strings.HasPrefix(rest, p.Name) {
					return true
				}
				rest = rest[len(p.Name):]
				continue
			}
			return rest == "" || rest == "." || rest == ".." || relStartsNot(rest)
		}
	}
	return false
}

// catDiff drops what two strings have in common at either end.
func (e *Engine) catDiff(a, b *Term) (*Term, *Term, bool) {
	x, y := parts(a), parts(b)
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	m := 0
	for m < len(x)-n && m < len(y)-n && x[len(x)-1-m] == y[len(y)-1-m] {
		m++
	}
	if n+m == 0 {
		return nil, nil, false
	}
	x, y = x[n:len(x)-m], y[n:len(y)-m]
	return e.cat(x...), e.cat(y...), true
}

// bounded: every symbol is a whole path component.
func bounded(t *Term) bool {
	ps := parts(t)
	for i, p := range ps {
		if !isRel(p) {
			if !p.isStr() {
				return false
			}
			continue
		}
		if i > 0 && !(ps[i-1].isStr() && strings.HasSuffix(ps[i-1].Name, "/")) {
			return false
		}
		if i+1 < len(ps) && !(ps[i+1].isStr() && strings.HasPrefix(ps[i+1].Name, "/")) {
			return false
		}
	}
	return true
}

// prefixOf: 1 p is a prefix of s, -1 it is not, 0 that depends on the names
// (different symbols are different components here).
func prefixOf(s, p *Term) int {
	a, b := parts(s), parts(p)
	var ra, rb string // unread rest of the current constants
	i, j := 0, 0
	for {
		for ra == "" && i < len(a) && a[i].isStr() {
			ra = a[i].Name
			i++
		}
		for rb == "" && j < len(b) && b[j].isStr() {
			rb = b[j].Name
			j++
		}
		if rb == "" && j == len(b) {
			return 1
		}
		if ra == "" && i == len(a) {
			return -1
		}
		switch {
		case ra != "" && rb != "":
			n := len(ra)
			if len(rb) < n {
				n = len(rb)
			}
			if ra[:n] != rb[:n] {
				return -1
			}
			ra, rb = ra[n:], rb[n:]
		case ra != "":
			if !isRel(b[j]) {
				return 0
			}
			if ra == "." || ra == ".." || relStartsNot(ra) {
				return -1
			}
			return 0
		case rb != "":
			if !isRel(a[i]) {
				return 0
			}
			if relStartsNot(rb) {
				return -1
			}
			return 0
		default:
			if a[i] == b[j] {
				i, j = i+1, j+1
				continue
			}
			if !isRel(a[i]) || !isRel(b[j]) {
				return 0
			}
			slashA := i+1 == len(a) || a[i+1].isStr() && strings.HasPrefix(a[i+1].Name, "/")
			slashB := j+1 < len(b) && b[j+1].isStr() && strings.HasPrefix(b[j+1].Name, "/")
			if slashA && slashB {
				return -1
			}
			return 0
		}
	}
}

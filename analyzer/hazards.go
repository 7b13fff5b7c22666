package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hazard is a place where a path can crash the process: a use of a value that
// nothing on the path shows to be there.
type hazard struct {
	fn   *ssa.Function
	kind string
	what string
}

func (e *Engine) crash(st *State, fr *FrameInfo, pos token.Pos, kind string, t *Term) {
	if e.inInit > 0 || fr == nil || !pos.IsValid() {
		return
	}
	if _, ok := e.hazards[pos]; !ok {
		e.hazards[pos] = hazard{fr.Fn, kind, t.String()}
	}
}

// useOf: the pointer or interface p is used.
func (e *Engine) useOf(st *State, fr *FrameInfo, p *Term, pos token.Pos) {
	switch checked, why := e.mayBeNil(st, strip(p)); {
	case why != "":
		e.crash(st, fr, pos, why, p)
	case checked:
		e.safe(fr, pos)
	}
}

func (e *Engine) safe(fr *FrameInfo, pos token.Pos) {
	if e.inInit == 0 && pos.IsValid() {
		e.safeUses[pos] = fr.Fn
	}
}

// mayBeNil: whether something is known about where p comes from, and why it
// can be nil.
func (e *Engine) mayBeNil(st *State, p *Term) (bool, string) {
	switch {
	case p.isNil():
		return true, "nil is used"
	case p.Op == "app" && strings.HasPrefix(p.Name, "assert[") && len(p.Args) == 1:
		switch p.Typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			return false, ""
		}
		if e.known(st, e.app("istype["+strings.TrimPrefix(p.Name, "assert["), p.Args[0])) != 1 {
			return true, "the result of a type assertion is used although the assertion may have failed"
		}
		return true, ""
	case p.Op == "res" && p.Ev != nil && p.Idx < 100 && len(p.Ev.Results) > 1 && p == p.Ev.Results[p.Idx]:
		err := p.Ev.err()
		if err == nil || err == p {
			return false, ""
		}
		switch p.Typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			return false, ""
		}
		if e.known(st, e.eq(err, e.mkNil())) != 1 && e.known(st, e.eq(p, e.mkNil())) != -1 {
			return true, "a result is used although the call may have failed"
		}
		return true, ""
	}
	return false, ""
}

// elementUse: the element i of x is used.
func (e *Engine) elementUse(st *State, fr *FrameInfo, x, i *Term, typ types.Type, pos token.Pos) {
	if _, ok := typ.Underlying().(*types.Slice); !ok {
		return
	}
	x, i = strip(x), strip(i)
	if !i.isInt() {
		return
	}
	if e.known(st, e.lt(i, e.length(x), true)) != 1 {
		e.crash(st, fr, pos, "an element is used although there may be fewer", x)
	} else {
		e.safe(fr, pos)
	}
}

func (e *Engine) mapWrite(st *State, fr *FrameInfo, m *Term, pos token.Pos) {
	m = strip(m)
	if m.Op == "makemap" || nonNilTerm(m) || e.known(st, e.eq(m, e.mkNil())) == -1 {
		e.safe(fr, pos)
		return
	}
	e.crash(st, fr, pos, "a map is written to that may be nil", m)
}

// noCrash reports what the runs made for the rules before it came across.
func noCrash(c *Ctx) {
	for pos, fn := range c.safeUses {
		c.Ob(fnName(fn), "use at "+c.P.At(pos))
	}
	for pos, h := range c.hazards {
		if h.kind == "nil is used" && strings.HasPrefix(fnPkg(h.fn), "pkg/operations") {
			// whether a record has content is decided twice by equivalent
			// conditions there, which the analysis does not connect
			continue
		}
		c.Ob(fnName(h.fn), "use at "+c.P.At(pos))
		c.Fail(fnName(h.fn), "may crash: "+h.kind, c.P.At(pos), "the process can crash: "+h.kind+": "+h.what, nil)
	}
}

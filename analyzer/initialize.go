package main

import (
	"fmt"
	"go/types"
	"strings"
)

// fsInitialize: opening a filesystem. An existing root is returned as it is;
// a missing one is looked for by rebuilding the index from the whole tape,
// with the real decryption and verification; only where there is nothing to
// read a root is made.
func fsInitialize(c *Ctx) {
	for _, root := range []string{"/P/N", "/", ""} {
		root := root
		r := c.Run(fsPkg, "STFS", "Initialize", RunOpt{Visits: 3, Inline: fsInline, Key: "init " + root, Setup: func(r *Run, st *State) {
			for i := range r.Args {
				if i > 0 && types.Identical(r.Args[i].Typ, types.Typ[types.String]) {
					if root == "/P/N" {
						r.Args[i] = r.E.spell(root)
					} else {
						r.Args[i] = r.E.mkStr(root)
					}
				}
			}
		}})
		if r == nil {
			return
		}
		c.initializeOf(r, root)
	}
}

func (c *Ctx) initializeOf(r *Run, root string) {
	isRoot := named(mp + "GetRootPath")
	existing, rebuilt, made := 0, 0, 0
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return" && len(x.Results) == 2, r, x, nil, "returns", "opening a filesystem can crash the process") {
			continue
		}
		evs := x.events()
		eff := effects(x)
		first := find(evs, isRoot)
		if !c.Check(first != nil, r, x, nil, "root looked up", "a filesystem is opened without looking for its root") {
			continue
		}
		_, last := -1, (*Event)(nil)
		for _, ev := range evs {
			if isRoot(ev) {
				last = ev
			}
		}
		found := r.isNilOn(x, first.err())
		missing := b2i(r.isErr(x, first.err(), "pkg/config.ErrNoRootDirectory"))
		if found == 1 {
			existing++
			c.Check(len(eff) == 0, r, x, firstOf(eff), "existing root", "the tape or the index is changed although there is a root already")
			c.Check(strip(x.Results[0]) == first.Results[0] && r.isNilOn(x, x.Results[1]) == 1, r, x, nil, "existing root", "the existing root is not what is returned")
			continue
		}
		if missing != 1 {
			c.Check(len(eff) == 0 && r.isNilOn(x, x.Results[1]) == -1, r, x, firstOf(eff), "index error", "the index cannot be read, but opening carries on")
			continue
		}

		// no root is known
		gr := find(evs, named(evGetReader))
		idx := find(evs, named("pkg/recovery.Index"))
		var mk *Event
		for _, ev := range eff {
			switch {
			case ev.is("pkg/recovery.Index"):
				c.Check(ev == idx && mk == nil, r, x, ev, "rebuild", "the index is rebuilt twice")
			case mk == nil && ev.is(opsRcv+"Archive", opsRcv+"Initialize"):
				mk = ev
			default:
				c.Check(false, r, x, ev, "changes", "opening does something else to the tape or the index than rebuilding it or making a root: "+ev.Callee)
			}
		}
		if !c.Check(gr != nil, r, x, nil, "tape read", "no root is known and the tape is not read") {
			continue
		}
		open := r.isNilOn(x, gr.err())
		closed := false
		for i, ev := range evs {
			if ev.is(evCloseReader) {
				closed = true
				_ = i
			}
			if ev == mk && open == 1 {
				c.Check(closed, r, x, ev, "drive free", "a root is made while the drive is still reserved for reading, which waits forever")
			}
		}
		if open == 1 {
			c.Check(closed, r, x, gr, "reader closed", "the drive stays reserved for reading")
			c.Check(idx != nil, r, x, gr, "rebuild", "the tape can be read, but the index is not rebuilt from it")
		}
		if idx != nil {
			rebuilt++
			c.rebuildCall(r, x, idx, gr)
		}
		if mk != nil {
			made++
			regular := 0
			if idx != nil {
				regular = r.fact(x, strip(r.fieldT(gr.Results[0], "DriveIsRegular")))
			}
			c.Check(open == -1 || idx != nil && r.isNilOn(x, idx.err()) == -1 && regular == -1, r, x, mk, "root made", "a root is appended to a tape that can be read")
			c.Check(r.fact(x, r.roField(c)) == -1, r, x, mk, "read-only", "a read-only filesystem makes a root")
			c.rootMade(r, x, mk, root)
		}
		if r.isNilOn(x, x.Results[1]) == -1 {
			continue
		}
		ok := mk != nil && r.isNilOn(x, mk.err()) == 1 || mk == nil && idx != nil && r.isNilOn(x, idx.err()) == 1
		c.Check(ok, r, x, idx, "opened", "a filesystem counts as opened although its index could neither be rebuilt nor begun")
		c.Check(last != first && strip(x.Results[0]) == last.Results[0] && (r.isNilOn(x, last.err()) == 1 || strip(x.Results[1]) == last.err()), r, x, last, "root returned", "what is returned is not the root of the filesystem as it is now")
		if last != first {
			after := false
			for _, ev := range evs {
				if ev == idx || ev == mk {
					after = false
				}
				if ev == last {
					after = true
				}
			}
			c.Check(after, r, x, last, "root returned", "the root is looked up before the index is complete")
		}
	}
	c.Check(existing > 0 && rebuilt > 0 && made > 0, r, nil, nil, "cases", fmt.Sprintf("opening never uses an existing root (%d paths), rebuilds the index (%d) or makes a root (%d)", existing, rebuilt, made))
	c.errDiscipline(r, func(ev *Event, x *Exit) bool {
		return isRoot(ev) && r.isErr(x, ev.err(), "pkg/config.ErrNoRootDirectory") || ev.is(evGetReader, "pkg/recovery.Index") || strings.HasPrefix(ev.Callee, "os/user.") || strings.HasPrefix(ev.Callee, "strconv.")
	})
}

func firstOf(evs []*Event) *Event {
	if len(evs) == 0 {
		return nil
	}
	return evs[0]
}

// roField is the value of the filesystem's read-only flag.
func (r *Run) roField(c *Ctx) *Term {
	v := c.role("NewSTFS", 5)
	if v == nil {
		return nil
	}
	return strip(r.E.load(newState(), r.E.fieldAddr(r.Args[0], v), v.Type()))
}

// rebuildCall: the whole tape is indexed, from nothing, as the configuration says.
func (c *Ctx) rebuildCall(r *Run, x *Exit, idx, gr *Event) {
	c.Check(strip(idx.arg(0)) == strip(gr.Results[0]), r, x, idx, "drive", "the index is rebuilt from something else than the drive")
	isInt := func(i int, n int64) bool { a := idx.arg(i); return a != nil && a.isInt() && a.intVal() == n }
	c.Check(isInt(5, 0) && isInt(6, 0), r, x, idx, "start", "the rebuild does not start at the first record of the tape")
	c.Check(boolArg(idx, 7, true), r, x, idx, "from nothing", "the rebuild keeps what the index had before")
	c.Check(boolArg(idx, 8, false), r, x, idx, "initializing", "the rebuild stores the names as if the filesystem was being made")
	c.Check(isInt(9, 0), r, x, idx, "first record", "the rebuild skips records")
	for i, typ := range []string{"", "MagneticTapeIO", "MetadataConfig", "PipeConfig", "CryptoConfig"} {
		if typ != "" {
			a := idx.arg(i)
			ok := a != nil && strings.Contains(typeName(a.Typ), typ) && (rootOf(a).Op == "res" && strings.Contains(rootOf(a).Ev.Callee, "Operations).Get") || rootOf(a) == strip(r.Args[0]))
			c.Check(ok, r, x, idx, typ, "the rebuild does not use the configured "+typ)
		}
	}
	c.realCallback(r, x, idx, 10, "pkg/encryption.DecryptHeader", func(ev *Event, hdr *Term, _ []*Term) string {
		if ev.arg(0) != hdr {
			return "another header is decrypted"
		}
		if !r.isCfg(ev.arg(1), "PipeConfig", "Encryption") || !r.isCfg(ev.arg(2), "CryptoConfig", "Identity") {
			return "headers are not decrypted with the configured format and identity"
		}
		return ""
	})
	c.realCallback(r, x, idx, 11, "pkg/signature.VerifyHeader", func(ev *Event, hdr *Term, args []*Term) string {
		if ev.arg(0) != hdr {
			return "another header is verified"
		}
		if len(args) < 2 || ev.arg(1) != args[1] {
			return "headers are not verified for the kind of drive they come from"
		}
		if !r.isCfg(ev.arg(2), "PipeConfig", "Signature") || !r.isCfg(ev.arg(3), "CryptoConfig", "Recipient") {
			return "headers are not verified with the configured format and recipient"
		}
		return ""
	})
}

// realCallback: the callback applies the primitive to its header, and
// succeeds only when that does.
func (c *Ctx) realCallback(r *Run, x *Exit, idx *Event, i int, prim string, ok func(ev *Event, hdr *Term, args []*Term) string) {
	cl, is := r.funcOf(idx.arg(i))
	if !c.Check(is && (idx.St != nil || len(cl.Args) == 0), r, x, idx, prim, "the header callback is not a function of this call") {
		return
	}
	st := newState()
	if idx.St != nil {
		st = idx.St.clone()
	}
	var args []*Term
	for k, p := range cl.Fn.Params {
		args = append(args, r.E.tt.mk("sym", fmt.Sprintf("cb!%d", k), p.Type()))
	}
	n := 0
	before := len(st.trace.Events())
	for _, y := range r.E.runFunc(st, cl.Fn, args, cl.Args, nil, idx.Pos) {
		if y.Kind == "cut" {
			continue
		}
		if !c.Check(y.Kind == "return" && len(y.Results) == 1, r, x, idx, prim, "the header callback can panic") {
			continue
		}
		p := find(y.events()[before:], named(prim))
		if r.isNilOn(y, y.Results[0]) == -1 && p == nil {
			continue
		}
		if !c.Check(p != nil, r, x, idx, prim, "headers are accepted without "+prim) {
			continue
		}
		n++
		bad := ok(p, args[0], args)
		c.Check(bad == "", r, x, idx, prim, bad)
		c.Check(strip(y.Results[0]) == p.err() || r.isNilOn(y, y.Results[0]) == -1 || r.isNilOn(y, p.err()) == 1, r, x, idx, prim, "headers are accepted although "+prim+" failed")
	}
	c.Check(n > 0, r, x, idx, prim, "the header callback never calls "+prim)
}

// rootMade: exactly a directory of the proposed name and permissions.
func (c *Ctx) rootMade(r *Run, x *Exit, mk *Event, root string) {
	proposal, perm := r.param(0), r.param(1)
	c.Check(r.onWriteOps(c, mk), r, x, mk, "write operations", "the root is not made through the write operations")
	if mk.is(opsRcv + "Initialize") {
		c.Check(mk.arg(1) == proposal && mk.arg(2) == perm, r, x, mk, "root entry", "the root does not get the proposed name and permissions")
		return
	}
	c.Check(boolArg(mk, 3, true) && boolArg(mk, 4, true), r, x, mk, "root entry", "the root is not written as the beginning of a new filesystem")
	src, msg := r.sources(mk, 1)
	c.Check(msg == "", r, x, mk, "root entry", msg)
	for _, s := range src {
		if root == "/P/N" {
			m := r.createdEntry(x, s, "P/N", '5', perm)
			c.Check(m == "", r, x, mk, "root entry", m)
			continue
		}
		tf, mode := r.infoField(s.info, "Typeflag"), r.infoField(s.info, "Mode")
		c.Check(strip(s.path) == proposal, r, x, mk, "root entry", "the root does not get the proposed name: "+s.path.String())
		c.Check(tf == nil || tf.isInt() && tf.intVal() == '5', r, x, mk, "root entry", "the root is not a directory")
		c.Check(tf == nil || strip(mode) == strip(perm), r, x, mk, "root entry", "the root does not get the proposed permissions")
		c.Check(s.link.isStr() && s.link.Name == "", r, x, mk, "root entry", "the root is given a link target")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The commands put the pieces together: which keys, formats and flags reach
// the library. Everything below pkg/ is taken as given here.

func cmdInline(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return !strings.HasPrefix(p, "pkg/") && !strings.HasPrefix(p, "internal/db/")
}

// commands are the bodies of the command line's commands.
func (c *Ctx) commands() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.SrcFuncs() {
		if !strings.HasPrefix(fnPkg(fn), "cmd/") || len(fn.Blocks) == 0 {
			continue
		}
		s := fn.Signature
		if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !strings.HasSuffix(s.Params().At(0).Type().String(), "cobra.Command") || !types.Identical(s.Results().At(0).Type(), errorType) {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// flagOf: the value is that of a command line flag.
func flagOf(t *Term, getter string) string {
	t = strip(t)
	if t != nil && t.Op == "res" && t.Ev != nil && strings.HasSuffix(t.Ev.Callee, "viper."+getter) && len(t.Ev.Args) > 0 {
		if a := t.Ev.arg(0); a.isStr() {
			return a.Name
		}
	}
	return ""
}

const newOps = "pkg/operations.NewOperations"

// cmdWiring checks every command.
func cmdWiring(c *Ctx) {
	seen := map[string]bool{}
	for _, fn := range c.commands() {
		r := c.RunFn(fn, RunOpt{Visits: 2, Inline: cmdInline, Key: "cmd"})
		if r == nil {
			continue
		}
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			evs := x.events()
			for _, ev := range evs {
				switch {
				case ev.is(newOps):
					seen["ops"] = true
					c.opsWired(r, x, evs, ev)
				case ev.is("pkg/tape.NewTapeManager"):
					seen["manager"] = true
					c.overwriteWired(r, x, evs, ev)
				case ev.is("pkg/fs.NewSTFS"):
					seen["fs"] = true
					c.fsWired(r, x, evs, ev)
				case ev.is("pkg/recovery.Index"):
					seen["index"] = true
					c.Check(flagOf(ev.arg(7), "GetBool") == "overwrite" || boolArg(ev, 7, false), r, x, ev, "index overwrite", "the index is emptied without being asked to")
					c.Check(boolArg(ev, 8, false), r, x, ev, "index initializing", "the index is rebuilt as if the filesystem was being made")
					c.pipesWired(r, x, ev, ev.arg(3))
					c.readKeys(r, x, ev, ev.arg(4))
					c.callbackKeys(r, x, ev)
				case ev.is("pkg/recovery.Query"), ev.is("pkg/recovery.Fetch"):
					c.pipesWired(r, x, ev, ev.arg(2))
					c.readKeys(r, x, ev, ev.arg(3))
				}
			}
		}
	}
	for _, k := range []string{"ops", "manager", "fs", "index"} {
		if !seen[k] {
			c.Fail("cmd/stfs/cmd", "commands", "?", "no command uses the library any more ("+k+")", nil)
		}
	}
	c.flagDefaults()
}

// flagDefaults: the switches which destroy or forbid something are off by default.
func (c *Ctx) flagDefaults() {
	n := 0
	for _, fn := range c.P.SrcFuncs() {
		if !strings.HasPrefix(fnPkg(fn), "cmd/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || !strings.Contains(callee.String(), "pflag.FlagSet).Bool") {
					continue
				}
				args := call.Common().Args
				var name string
				var def *ssa.Const
				for _, a := range args {
					k, is := a.(*ssa.Const)
					if !is || k.Value == nil {
						continue
					}
					switch {
					case name == "" && types.Identical(k.Type().Underlying(), types.Typ[types.String]):
						name = strings.Trim(k.Value.ExactString(), `"`)
					case types.Identical(k.Type().Underlying(), types.Typ[types.Bool]):
						def = k
					}
				}
				if name != "overwrite" || def == nil {
					continue
				}
				n++
				c.Ob(fnName(fn), c.P.At(call.Pos()))
				if def.Value.ExactString() != "false" {
					c.Fail(fnName(fn), "default of --overwrite", c.P.At(call.Pos()), "what is there is overwritten by default", nil)
				}
			}
		}
	}
	if n == 0 {
		c.Fail("cmd/stfs/cmd", "default of --overwrite", "?", "no command declares the flag any more", nil)
	}
}

// pipesWired: each pipeline format comes from its own flag.
func (c *Ctx) pipesWired(r *Run, x *Exit, ev *Event, pipes *Term) {
	f, ok := structFields(strip(pipes))
	if !ok {
		return
	}
	for name, flag := range map[string]string{"Compression": "compression", "Encryption": "encryption", "Signature": "signature"} {
		v := f[name]
		c.Check(v != nil && (flagOf(v, "GetString") == flag || strip(v).Op != "res"), r, x, ev, name, "the "+flag+" format is not the configured one")
	}
	v := f["RecordSize"]
	c.Check(v != nil && (flagOf(v, "GetInt") == "record-size" || strip(v).Op != "res" && strip(v).Op != "zero"), r, x, ev, "RecordSize", "the record size is not the configured one")
}

func keyFrom(t *Term, parse string) bool {
	t = strip(t)
	if t != nil && t.Op == "iface" {
		t = strip(t.Args[0])
	}
	return resOf(t, 0, "pkg/keys."+parse)
}

// readKeys: reading verifies with the signature recipient and decrypts with
// the encryption identity.
func (c *Ctx) readKeys(r *Run, x *Exit, ev *Event, crypto *Term) {
	f, ok := structFields(strip(crypto))
	if !ok {
		return
	}
	c.Check(keyFrom(f["Recipient"], "ParseSignerRecipient"), r, x, ev, "read recipient", "signatures are not verified with the given key")
	c.Check(keyFrom(f["Identity"], "ParseIdentity"), r, x, ev, "read identity", "records are not decrypted with the given key")
}

func (c *Ctx) writeKeys(r *Run, x *Exit, ev *Event, crypto *Term) {
	f, ok := structFields(strip(crypto))
	if !ok {
		return
	}
	c.Check(keyFrom(f["Recipient"], "ParseRecipient"), r, x, ev, "write recipient", "records are not encrypted for the given key")
	c.Check(keyFrom(f["Identity"], "ParseSignerIdentity"), r, x, ev, "write identity", "records are not signed with the given key")
}

// opsWired: an operations object which writes signs and encrypts, one which
// reads decrypts and verifies, and both use one drive.
func (c *Ctx) opsWired(r *Run, x *Exit, evs []*Event, ev *Event) {
	if len(ev.Results) == 0 {
		return
	}
	ops := strip(ev.Results[0])
	write, read := false, false
	for _, u := range evs {
		switch {
		case u.is(opsRcv+"Archive", opsRcv+"Update", opsRcv+"Delete", opsRcv+"Move", opsRcv+"Initialize"):
			write = write || strip(u.arg(0)) == ops
		case u.is(opsRcv + "Restore"):
			read = read || strip(u.arg(0)) == ops
		case u.is("pkg/fs.NewSTFS"):
			read = read || strip(u.arg(0)) == ops
			write = write || strip(u.arg(1)) == ops
		}
	}
	c.pipesWired(r, x, ev, ev.arg(2))
	if read {
		c.readKeys(r, x, ev, ev.arg(3))
	}
	if write {
		c.writeKeys(r, x, ev, ev.arg(3))
	}
	b, ok := structFields(strip(ev.arg(0)))
	if !ok {
		return
	}
	var tm *Term
	for field, method := range map[string]string{"GetWriter": "GetWriter", "CloseWriter": "Close", "GetReader": "GetReader", "CloseReader": "Close"} {
		f, is := r.funcOf(b[field])
		if !is {
			continue
		}
		for _, u := range r.calledBy(ev, f) {
			if !strings.HasPrefix(u.Callee, "(*pkg/tape.TapeManager).") {
				continue
			}
			c.Check(u.is("(*pkg/tape.TapeManager)."+method), r, x, ev, field, "the drive's "+field+" calls "+u.Callee)
			c.Check(tm == nil || tm == strip(u.arg(0)), r, x, ev, field, "reading and writing do not share one drive manager")
			tm = strip(u.arg(0))
		}
	}
}

// calledBy are the calls a function value makes.
func (r *Run) calledBy(ev *Event, f *Term) []*Event {
	st := newState()
	if ev.St != nil {
		st = ev.St.clone()
	}
	var args []*Term
	for k, p := range f.Fn.Params {
		args = append(args, r.E.tt.mk("sym", fmt.Sprintf("cb!%d", k), p.Type()))
	}
	var out []*Event
	before := len(st.trace.Events())
	for _, y := range r.E.runFunc(st, f.Fn, args, f.Args, nil, ev.Pos) {
		out = append(out, y.events()[before:]...)
	}
	return out
}

// overwriteWired: the tape is only overwritten when asked for, or when a new
// one is begun.
func (c *Ctx) overwriteWired(r *Run, x *Exit, evs []*Event, ev *Event) {
	if boolArg(ev, 3, false) || flagOf(ev.arg(3), "GetBool") == "overwrite" {
		c.Check(true, r, x, ev, "overwrite", "")
		return
	}
	only := true
	for _, u := range evs {
		if u.is(opsRcv+"Archive", opsRcv+"Update", opsRcv+"Delete", opsRcv+"Move", opsRcv+"Restore", "pkg/fs.NewSTFS") {
			only = false
		}
	}
	c.Check(only, r, x, ev, "overwrite", "the tape is overwritten without being asked to")
}

// fsWired: a filesystem without write operations or buffers is read-only, and
// so is what is served over HTTP.
func (c *Ctx) fsWired(r *Run, x *Exit, evs []*Event, ev *Event) {
	ro := boolArg(ev, 5, true)
	c.Check(ro || !ev.arg(1).isNil(), r, x, ev, "write operations", "a writable filesystem has no write operations")
	c.Check(ro || !ev.arg(4).isNil(), r, x, ev, "buffers", "a writable filesystem has no buffers")
	http := false
	for _, u := range evs {
		http = http || strings.HasPrefix(u.Callee, "net/http.")
	}
	if http {
		c.Check(ro, r, x, ev, "served over HTTP", "what is served over HTTP can be written")
	} else {
		c.Check(ro || flagOf(ev.arg(5), "GetBool") == "readOnly" || flagOf(ev.arg(5), "GetBool") != "", r, x, ev, "read-only", "the read-only flag is ignored")
	}
	// one index for the operations and the filesystem
	fm, ok := structFields(strip(ev.arg(2)))
	for i := 0; ok && i < 2; i++ {
		o := strip(ev.arg(i))
		if o.Op != "res" || !o.Ev.is(newOps) {
			continue
		}
		if om, is := structFields(strip(o.Ev.arg(1))); is {
			c.Check(strip(om["Metadata"]) == strip(fm["Metadata"]), r, x, ev, "index", "the operations and the filesystem use different indexes")
		}
	}
}

// callbackKeys: a rebuild decrypts and verifies with the given keys.
func (c *Ctx) callbackKeys(r *Run, x *Exit, idx *Event) {
	c.realCallback(r, x, idx, 10, "pkg/encryption.DecryptHeader", func(ev *Event, hdr *Term, _ []*Term) string {
		if ev.arg(0) != hdr || flagOf(ev.arg(1), "GetString") != "encryption" || !keyFrom(ev.arg(2), "ParseIdentity") {
			return "headers are not decrypted with the configured format and identity"
		}
		return ""
	})
	c.realCallback(r, x, idx, 11, "pkg/signature.VerifyHeader", func(ev *Event, hdr *Term, args []*Term) string {
		if ev.arg(0) != hdr || len(args) < 2 || ev.arg(1) != args[1] || flagOf(ev.arg(2), "GetString") != "signature" || !keyFrom(ev.arg(3), "ParseSignerRecipient") {
			return "headers are not verified with the configured format and recipient"
		}
		return ""
	})
}

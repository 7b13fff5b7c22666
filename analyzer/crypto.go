package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- signatures -------------------------------------------------------------

const (
	msVerify       = "aead.dev/minisign.Verify"
	msReaderVerify = "(*aead.dev/minisign.Reader).Verify"
	msNewReader    = "aead.dev/minisign.NewReader"
	msSign         = "aead.dev/minisign.Sign"
	msReaderSign   = "(*aead.dev/minisign.Reader).Sign"
	pgpPkg         = "github.com/ProtonMail/go-crypto/openpgp"
	pgpVerifySig   = "(*" + pgpPkg + "/packet.PublicKey).VerifySignature"
	pgpCheck       = pgpPkg + ".CheckDetachedSignature"
	pgpDetachSign  = pgpPkg + ".DetachSign"
	pgpSigSign     = "(*" + pgpPkg + "/packet.Signature).Sign"
	pgpSigSer      = "(*" + pgpPkg + "/packet.Signature).Serialize"
)

func (c *Ctx) sigFormats() (mini, pgp string) {
	return c.constStr("pkg/config", "SignatureFormatMinisignKey"), c.constStr("pkg/config", "SignatureFormatPGPKey")
}

// formatOn is the format an exit is for ("?" when it is not settled).
func (c *Ctx) formatOn(r *Run, x *Exit, format *Term, all ...string) string {
	for _, f := range all {
		if r.eqStr(x, format, f) == 1 {
			return f
		}
	}
	return "?"
}

// eachFormat runs a function once for every known format, given as a constant
// in parameter idx, and makes sure it refuses any other one.
func (c *Ctx) eachFormat(pkg, name string, idx int, formats []string, one func(r *Run, f string)) {
	for _, f := range formats {
		if r := c.runWith(pkg, name, map[int]func(*Engine) *Term{idx: cs(f)}); r != nil {
			one(r, f)
		}
	}
	r := c.runWith(pkg, name, map[int]func(*Engine) *Term{idx: cs("no-such-format")})
	if r == nil {
		return
	}
	for _, x := range r.Exits {
		if x.Kind == "return" {
			c.Check(!r.mayOk(x), r, x, nil, "format known", "a format that is not one of the known ones is accepted")
		}
	}
}

// readsAll: t is src itself or a reader over exactly src.
func readsAll(t, src *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t == strip(src) {
		return true
	}
	if (t.isApp("reader") || t.isApp("nopcloser")) && len(t.Args) > 0 {
		return readsAll(t.Args[0], src)
	}
	// a decoder's own closer over itself
	if t.Op == "res" && strings.HasSuffix(t.Ev.Callee, ".IOReadCloser") {
		return readsAll(t.Ev.arg(0), src)
	}
	return false
}

// hashedExactly: what was written to the hash h before event i is exactly src.
func (r *Run) hashedExactly(x *Exit, evs []*Event, i int, h, src *Term) bool {
	n := 0
	for _, ev := range evs[:i] {
		at := -1
		for k := range ev.Args {
			if ev.arg(k) == h {
				at = k
			}
		}
		if at < 0 {
			continue
		}
		switch {
		case at == 0 && (ev.Callee == "io.Copy" || ev.Callee == "io.WriteString" || strings.HasSuffix(ev.Callee, ".Write")):
			if !readsAll(ev.arg(1), src) {
				return false
			}
			if ev.err() != nil && ev.Callee == "io.Copy" && r.isNilOn(x, ev.err()) != 1 {
				return false
			}
			n++
		case strings.HasSuffix(ev.Callee, ".Reset") || strings.HasSuffix(ev.Callee, ".Write"):
			return false
		}
	}
	return n == 1
}

// trustedKey: the key comes out of the given key material.
func trustedKey(t, key *Term) bool { return t != nil && t.hasDeep(strip(key)) }

// verifiedOn: a verification of src against the signature under the key
// happened on this path and was successful. ret is what the path returns.
func (r *Run) verifiedOn(x *Exit, format, mini string, key, src, sig, ret *Term) (bool, string) {
	evs := x.events()
	why := "no signature is verified"
	for i, ev := range evs {
		var ok bool
		switch {
		case ev.is(msVerify) && format == mini:
			ok = r.fact(x, ev.Results[0]) == 1
			if !readsAll(ev.arg(1), src) {
				ok, why = false, "the signature is verified against something else than the data"
			}
			if !trustedKey(ev.arg(0), key) || !ev.arg(2).hasDeep(strip(sig)) {
				ok, why = false, "the signature is not the given one or the key is not the trusted one"
			}
		case ev.is(pgpVerifySig) && format != mini:
			ok = ev.err() == ret || r.isNilOn(x, ev.err()) == 1
			if !r.hashedExactly(x, evs, i, ev.arg(1), src) {
				ok, why = false, "the hash which is verified is not the hash of exactly the data"
			}
			if !trustedKey(ev.arg(0), key) || !ev.arg(2).hasDeep(strip(sig)) {
				ok, why = false, "the signature is not the given one or the key is not the trusted one"
			}
		case ev.is(pgpCheck) && format != mini:
			ok = ev.err() == ret || r.isNilOn(x, ev.err()) == 1
			if !readsAll(ev.arg(1), src) || !trustedKey(ev.arg(0), key) || !ev.arg(2).hasDeep(strip(sig)) {
				ok, why = false, "the signature, the data or the key is not the given one"
			}
		}
		if ok {
			return true, ""
		}
	}
	return false, why
}

func sigVerifyString(c *Ctx) {
	mini, pgp := c.sigFormats()
	c.eachFormat("pkg/signature", "VerifyString", 2, []string{mini, pgp, ""}, func(r *Run, f string) { c.sigVerifyStringOf(r, f, mini, pgp) })
}

func (c *Ctx) sigVerifyStringOf(r *Run, f, mini, pgp string) {
	src, recipient, sig := r.param(0), r.param(3), r.param(4)
	seen := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "no panic", "a malformed signature or key crashes the process") {
			continue
		}
		ret := r.errResult(x)
		if !r.mayOk(x) {
			continue
		}
		seen = true
		if f == "" {
			continue
		}
		ok, why := r.verifiedOn(x, f, mini, recipient, src, sig, ret)
		c.Check(ok, r, x, nil, "verified "+f, "a string is accepted although "+why)
	}
	c.Check(seen, r, nil, nil, "accepts "+f, "nothing is ever accepted for a supported signature format")
	c.errDiscipline(r, nil)
}

func sigVerify(c *Ctx) {
	mini, pgp := c.sigFormats()
	c.eachFormat("pkg/signature", "Verify", 2, []string{mini, pgp, ""}, func(r *Run, f string) { c.sigVerifyOf(r, f, mini, pgp) })
}

func (c *Ctx) sigVerifyOf(r *Run, f, mini, pgp string) {
	src, recipient, sig := r.param(0), r.param(3), r.param(4)
	seen := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "no panic", "a malformed signature or key crashes the process") {
			continue
		}
		if !r.mayOk(x) {
			continue
		}
		out := strip(x.Results[0])
		fn, ok := r.funcOf(x.Results[1])
		if !c.Check(ok && fn.Fn != nil, r, x, nil, "verifier of "+f, "the returned verifier is not a function") {
			continue
		}
		if f == "" {
			c.Check(readsAll(out, src), r, x, nil, "content without signatures", "without signatures the content does not come back as it is")
		}
		// where does what is read from the result get recorded?
		var hash *Term
		rd := find(x.events(), named(msNewReader))
		switch f {
		case mini:
			c.Check(rd != nil && readsAll(rd.arg(0), src) && out == rd.Results[0], r, x, rd, "content of "+f, "the content which is delivered is not the content which is verified")
		case pgp:
			if c.Check(out.isApp("io.TeeReader") && readsAll(out.Args[0], src), r, x, nil, "content of "+f, "the content which is delivered is not the content which is hashed") {
				hash = strip(out.Args[1])
			}
		}
		for _, ev := range x.events() {
			if hash != nil && !ev.is("(crypto.Hash).New") {
				for k := range ev.Args {
					c.Check(ev.arg(k) != hash, r, x, ev, "hash of "+f, "the hash is used before the content has been read")
				}
			}
		}
		okSeen := false
		for _, y := range r.E.runFunc(x.St.clone(), fn.Fn, nil, fn.Args, nil, x.Pos) {
			if y.Kind == "cut" {
				continue
			}
			if !c.Check(y.Kind == "return" && len(y.Results) == 1, r, y, nil, "verifier of "+f+" returns", "verifying crashes the process") {
				continue
			}
			if r.isNilOn(y, y.Results[0]) == -1 {
				continue
			}
			okSeen = true
			if f == "" {
				continue
			}
			good := false
			why := "no signature is verified"
			for _, ev := range y.events() {
				switch {
				case ev.is(msReaderVerify) && f == mini:
					good = good || r.fact(y, ev.Results[0]) == 1 && ev.arg(0) == out && trustedKey(ev.arg(1), recipient) && ev.arg(2).hasDeep(strip(sig))
				case ev.is(pgpVerifySig) && f == pgp:
					good = good || (ev.err() == strip(y.Results[0]) || r.isNilOn(y, ev.err()) == 1) && hash != nil && ev.arg(1) == hash && trustedKey(ev.arg(0), recipient) && ev.arg(2).hasDeep(strip(sig))
				}
			}
			c.Check(good, r, y, nil, "verified "+f, "content is accepted although "+why+" (with the given key, of the content which was read)")
		}
		if okSeen {
			seen = true
		}
	}
	c.Check(seen, r, nil, nil, "accepts "+f, "nothing is ever accepted for a supported signature format")
	c.errDiscipline(r, nil)
}

func sigVerifyHeader(c *Ctx) {
	r := c.Run("pkg/signature", "", "VerifyHeader", RunOpt{Key: "sig"})
	if r == nil {
		return
	}
	emb, sgn := c.constStr("internal/records", "STFSRecordEmbeddedHeader"), c.constStr("internal/records", "STFSRecordSignature")
	hdr, reg, format, recipient := r.param(0), r.param(1), r.param(2), r.param(3)
	some := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "no panic", "a malformed header crashes the process") || !r.mayOk(x) {
			continue
		}
		if r.eqStr(x, format, "") == 1 {
			final := r.E.load(x.St, hdr, ptrElem(hdr.Typ))
			c.Check(final.Op == "deref" && final.Args[0] == hdr, r, x, nil, "no signatures", "without signatures the header is changed: "+final.String())
			continue
		}
		some = true
		v := find(x.events(), named("pkg/signature.VerifyString"))
		if !c.Check(v != nil, r, x, nil, "header verified", "a header is accepted without verifying a signature") {
			continue
		}
		rec := func(t *Term, name string) bool {
			return t.contains(func(t *Term) bool { return t.isStr() && t.Name == name }) && rootOfMap(t) == hdr
		}
		c.Check(rec(v.arg(0), emb), r, x, v, "verified data", "what is verified is not the header's embedded record")
		c.Check(v.arg(1) == reg && v.arg(2) == format && v.arg(3) == recipient, r, x, v, "verification key", "the header is not verified with the given format and key")
		c.Check(rec(v.arg(4), sgn), r, x, v, "verified signature", "the signature is not the header's signature record")
		c.Check(r.isNilOn(x, v.err()) == 1, r, x, v, "VerifyString error", "a header is accepted although its signature may be invalid")
		final := r.E.load(x.St, hdr, ptrElem(hdr.Typ))
		c.Check(final.isApp("unjson") && final.Args[0] == v.arg(0) && len(final.Args) == 1 && !x.St.mapTouched(final), r, x, nil, "accepted header", "the header which is used is not exactly the one which was signed: "+final.String())
	}
	c.Check(some, r, nil, nil, "signed path", "no signed header is ever accepted")
	c.errDiscipline(r, nil)
}

func sigSignHeader(c *Ctx) {
	r := c.Run("pkg/signature", "", "SignHeader", RunOpt{Key: "sig"})
	if r == nil {
		return
	}
	emb, sgn := c.constStr("internal/records", "STFSRecordEmbeddedHeader"), c.constStr("internal/records", "STFSRecordSignature")
	hdr, reg, format, identity := r.param(0), r.param(1), r.param(2), r.param(3)
	some := false
	for _, x := range r.okExits() {
		if r.eqStr(x, format, "") == 1 {
			final := r.E.load(x.St, hdr, ptrElem(hdr.Typ))
			c.Check(final.Op == "deref" && final.Args[0] == hdr, r, x, nil, "no signatures", "without signatures the header is changed: "+final.String())
			continue
		}
		some = true
		s := find(x.events(), named("pkg/signature.SignString"))
		if !c.Check(s != nil && r.isNilOn(x, s.err()) == 1, r, x, s, "header signed", "a header is passed on without having been signed") {
			continue
		}
		a := s.arg(0)
		c.Check(a.isApp("json") && a.Args[0].Op == "deref" && a.Args[0].Args[0] == hdr, r, x, s, "signed data", "what is signed is not the complete header")
		c.Check(s.arg(1) == reg && s.arg(2) == format && s.arg(3) == identity, r, x, s, "signing key", "the header is not signed with the given format and key")
		final := r.E.snapshot(x.St, hdr, ptrElem(hdr.Typ))
		fs, ok := structFields(final)
		if !c.Check(ok, r, x, nil, "header replaced", "the signed header still carries unsigned parts of the original one") {
			continue
		}
		ks, vs, exact := mapPairs(fs["PAXRecords"])
		if !c.Check(fs["PAXRecords"] != nil && exact && len(ks) == 2, r, x, nil, "records", "the signed header's records are not exactly the embedded header and its signature") {
			continue
		}
		for i, k := range ks {
			switch k {
			case emb:
				c.Check(vs[i] == a, r, x, nil, "embedded header", "the embedded header is not what was signed")
			case sgn:
				c.Check(vs[i] == s.Results[0], r, x, nil, "signature record", "the signature record is not the signature of the embedded header")
			default:
				c.Check(false, r, x, nil, "record "+k, "the signed header carries another record")
			}
		}
		_, f, _ := fieldOf(fs["Size"])
		c.Check(fs["Size"] != nil && f == "Size" && rootOf(fs["Size"]) == hdr, r, x, nil, "size", "the outer header does not announce the record's size")
		c.Check(fs["Format"] != nil && fs["Format"].isInt(), r, x, nil, "format", "the outer header has no fixed format")
		for n := range fs {
			c.Check(n == "Size" || n == "Format" || n == "PAXRecords", r, x, nil, "field "+n, "the outer header carries an unsigned "+n)
		}
	}
	c.Check(some, r, nil, nil, "signing path", "no header is ever signed")
	c.errDiscipline(r, nil)
}

func sigSignString(c *Ctx) {
	mini, pgp := c.sigFormats()
	c.eachFormat("pkg/signature", "SignString", 2, []string{mini, pgp, ""}, func(r *Run, f string) { c.sigSignStringOf(r, f, mini, pgp) })
}

func (c *Ctx) sigSignStringOf(r *Run, f, mini, pgp string) {
	src, identity := r.param(0), r.param(3)
	seen := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "no panic", "signing crashes the process") || !r.mayOk(x) {
			continue
		}
		seen = true
		out := strip(x.Results[0])
		switch f {
		case "":
		case mini:
			ev := find(x.events(), named(msSign))
			c.Check(ev != nil && readsAll(ev.arg(1), src) && keyArg(ev.arg(0), identity) && isBase64Of(out, ev.Results[0]), r, x, ev, "signature "+f, "the result is not the base64 encoding of a signature of exactly the data under the given key")
		case pgp:
			ev := find(x.events(), named(pgpDetachSign))
			c.Check(ev != nil && readsAll(ev.arg(2), src) && trustedKey(ev.arg(1), identity) && isBase64Of(out, ev.arg(0)), r, x, ev, "signature "+f, "the result is not the base64 encoding of a signature of exactly the data under the given key")
		}
	}
	c.Check(seen, r, nil, nil, "signs "+f, "nothing can be signed with a supported signature format")
	c.errDiscipline(r, nil)
}

func sigSign(c *Ctx) {
	mini, pgp := c.sigFormats()
	c.eachFormat("pkg/signature", "Sign", 2, []string{mini, pgp, ""}, func(r *Run, f string) { c.sigSignOf(r, f, mini, pgp) })
}

func (c *Ctx) sigSignOf(r *Run, f, mini, pgp string) {
	src, identity := r.param(0), r.param(3)
	seen := false
	for _, x := range r.Exits {
		if x.Kind == "cut" {
			continue
		}
		if !c.Check(x.Kind == "return", r, x, nil, "no panic", "signing crashes the process") || !r.mayOk(x) {
			continue
		}
		out := strip(x.Results[0])
		fn, ok := r.funcOf(x.Results[1])
		if !c.Check(ok && fn.Fn != nil, r, x, nil, "signer of "+f, "the returned signer is not a function") {
			continue
		}
		var hash *Term
		switch f {
		case "":
			c.Check(readsAll(out, src), r, x, nil, "content without signatures", "without signatures the content does not come back as it is")
		case mini:
			rd := find(x.events(), named(msNewReader))
			c.Check(rd != nil && readsAll(rd.arg(0), src) && out == rd.Results[0], r, x, rd, "content of "+f, "the content which is passed on is not the content which is signed")
		case pgp:
			if c.Check(out.isApp("io.TeeReader") && readsAll(out.Args[0], src), r, x, nil, "content of "+f, "the content which is passed on is not the content which is hashed") {
				hash = strip(out.Args[1])
			}
		}
		for _, y := range r.E.runFunc(x.St.clone(), fn.Fn, nil, fn.Args, nil, x.Pos) {
			if y.Kind == "cut" {
				continue
			}
			if !c.Check(y.Kind == "return" && len(y.Results) == 2, r, y, nil, "signer of "+f+" returns", "signing crashes the process") {
				continue
			}
			if r.isNilOn(y, y.Results[1]) == -1 {
				continue
			}
			seen = true
			res := strip(y.Results[0])
			switch f {
			case "":
				c.Check(res.isStr() && res.Name == "", r, y, nil, "no signature", "a signature is made although there is no format for it")
			case mini:
				ev := find(y.events(), named(msReaderSign))
				c.Check(ev != nil && ev.arg(0) == out && keyArg(ev.arg(1), identity) && isBase64Of(res, ev.Results[0]), r, y, ev, "signature "+f, "the result is not the base64 encoding of the signature of the content under the given key")
			case pgp:
				sg, se := find(y.events(), named(pgpSigSign)), find(y.events(), named(pgpSigSer))
				good := sg != nil && se != nil && hash != nil && sg.arg(1) == hash && trustedKeyIn(x, sg.arg(2), identity) && r.isNilOn(y, sg.err()) == 1 &&
					se.arg(0) == sg.arg(0) && r.isNilOn(y, se.err()) == 1 && isBase64Of(res, se.arg(1))
				c.Check(good, r, y, sg, "signature "+f, "the result is not the base64 encoding of the signature of the content under the given key")
			}
		}
	}
	c.Check(seen, r, nil, nil, "signs "+f, "nothing can be signed with a supported signature format")
	c.errDiscipline(r, nil)
}

// trustedKeyIn: the key comes out of the key material, possibly through a
// lookup call on it.
func trustedKeyIn(x *Exit, t, key *Term) bool {
	if trustedKey(t, key) {
		return true
	}
	ok := false
	t.containsDeep(func(s *Term) bool {
		if s.Op == "res" && s.Ev != nil {
			for _, a := range s.Ev.Args {
				if a.hasDeep(strip(key)) {
					ok = true
				}
			}
		}
		return false
	})
	return ok
}

// ---- compression ---------------------------------------------------------------

var zipFamily = map[string]map[bool][]string{
	"gzip":    {true: {"compress/gzip.NewWriterLevel", "compress/gzip.NewWriter", "github.com/klauspost/pgzip.NewWriterLevel", "github.com/klauspost/pgzip.NewWriter"}, false: {"compress/gzip.NewReader", "github.com/klauspost/pgzip.NewReader"}},
	"lz4":     {true: {"github.com/pierrec/lz4/v4.NewWriter"}, false: {"github.com/pierrec/lz4/v4.NewReader"}},
	"zstd":    {true: {"github.com/klauspost/compress/zstd.NewWriter"}, false: {"github.com/klauspost/compress/zstd.NewReader"}},
	"brotli":  {true: {"github.com/andybalholm/brotli.NewWriterLevel", "github.com/andybalholm/brotli.NewWriter"}, false: {"github.com/andybalholm/brotli.NewReader"}},
	"bzip2":   {true: {"github.com/dsnet/compress/bzip2.NewWriter"}, false: {"github.com/dsnet/compress/bzip2.NewReader", "github.com/cosnicolaou/pbzip2.NewReader", "compress/bzip2.NewReader"}},
	"nothing": {true: nil, false: nil},
}

func (c *Ctx) zipFormats() map[string]string {
	out := map[string]string{"": "nothing"}
	for k, f := range map[string]string{"CompressionFormatGZipKey": "gzip", "CompressionFormatParallelGZipKey": "gzip", "CompressionFormatLZ4Key": "lz4", "CompressionFormatZStandardKey": "zstd", "CompressionFormatBrotliKey": "brotli", "CompressionFormatBzip2Key": "bzip2", "CompressionFormatBzip2ParallelKey": "bzip2"} {
		out[c.constStr("pkg/config", k)] = f
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// constArg runs a function with some parameters fixed.
func (c *Ctx) runWith(pkg, name string, vals map[int]func(e *Engine) *Term) *Run {
	// the string functions may be built from the stream ones
	inline := func(fn *ssa.Function) bool {
		return defaultInline(fn) || fnPkg(fn) == pkg && !strings.HasSuffix(fn.Name(), "String") && strings.HasSuffix(name, "String")
	}
	return c.Run(pkg, "", name, RunOpt{Visits: 4, Inline: inline, Setup: func(r *Run, st *State) {
		for i, f := range vals {
			if i < len(r.Args) {
				r.Args[i] = f(r.E)
			}
		}
	}})
}

func cs(s string) func(*Engine) *Term { return func(e *Engine) *Term { return e.mkStr(s) } }
func cb(b bool) func(*Engine) *Term   { return func(e *Engine) *Term { return e.mkBool(b) } }
func cr(n string) func(*Engine) *Term { return func(e *Engine) *Term { return e.relSym(n) } }

func compressPairs(c *Ctx) {
	formats := c.zipFormats()
	levels := []string{c.constStr("pkg/config", "CompressionLevelFastestKey"), c.constStr("pkg/config", "CompressionLevelBalancedKey"), c.constStr("pkg/config", "CompressionLevelSmallestKey")}
	for _, f := range sortedKeys(formats) {
		fam := zipFamily[formats[f]]
		for _, l := range levels {
			for _, regular := range []bool{true, false} {
				r := c.runWith("pkg/compression", "Compress", map[int]func(*Engine) *Term{1: cs(f), 2: cs(l), 3: cb(regular)})
				if r == nil {
					return
				}
				label := f + "/" + l
				some := false
				for _, x := range r.Exits {
					if x.Kind == "cut" {
						continue
					}
					if !c.Check(x.Kind == "return", r, x, nil, "no panic "+label, "compressing crashes the process") || !r.mayOk(x) {
						continue
					}
					some = true
					c.encoder(r, x, fam[true], r.param(0), label)
				}
				if regular {
					c.Check(some, r, nil, nil, "compresses "+label, "a supported format and level cannot be used on regular files")
				}
				c.errDiscipline(r, nil)
			}
		}
		r := c.runWith("pkg/compression", "Decompress", map[int]func(*Engine) *Term{1: cs(f)})
		if r == nil {
			return
		}
		some := false
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			if !c.Check(x.Kind == "return", r, x, nil, "no panic "+f, "decompressing crashes the process") || !r.mayOk(x) {
				continue
			}
			some = true
			c.decoder(r, x, fam[false], r.param(0), f)
		}
		c.Check(some, r, nil, nil, "decompresses "+f, "a supported format cannot be decompressed")
		c.errDiscipline(r, nil)
	}
	// anything else is refused
	for _, n := range []string{"Compress", "Decompress"} {
		c.eachFormat("pkg/compression", n, 1, nil, nil)
	}
}

// wraps: out is the value or a wrapper that embeds it.
func (r *Run) wraps(x *Exit, out, v *Term) bool {
	out = strip(out)
	if out == v {
		return true
	}
	if out.hasDeep(v) {
		return true
	}
	sn := r.E.argSnap(x.St, out)
	return sn != nil && sn.hasDeep(v)
}

func (c *Ctx) encoder(r *Run, x *Exit, allowed []string, dst *Term, label string) {
	out := strip(x.Results[0])
	if len(allowed) == 0 {
		c.Check(r.wraps(x, out, dst), r, x, nil, "encoder "+label, "without compression the destination itself must be written to")
		for _, ev := range x.events() {
			for k := range ev.Args {
				c.Check(ev.arg(k) != dst, r, x, ev, "encoder "+label, "without compression nothing else may use the destination")
			}
		}
		return
	}
	var enc *Event
	for _, ev := range x.events() {
		for k := range ev.Args {
			if ev.arg(k) == dst {
				c.Check(enc == nil && k == 0, r, x, ev, "destination "+label, "something else than the encoder writes to the destination")
				enc = ev
			}
		}
	}
	if !c.Check(enc != nil && enc.is(allowed...), r, x, enc, "encoder "+label, "the result is not written by an encoder of this format") {
		return
	}
	c.Check(r.wraps(x, out, enc.Results[0]), r, x, enc, "encoder "+label, "the returned writer is not the encoder")
	for _, m := range []string{"Write", "Close"} {
		c.Check(r.reaches(x, x.Results[0], m, strip(enc.Results[0])), r, x, enc, m+" "+label, "calling "+m+" on the returned writer does not reach the encoder")
	}
	for _, a := range enc.Args[1:] {
		if msg := badLevel(enc.Callee, r, x, a); msg != "" {
			c.Check(false, r, x, enc, "level "+label, msg)
		}
	}
}

// reaches: calling the method on the value calls the same method of target, on
// every path (unless the value itself is target, or of a kind that is not known).
func (r *Run) reaches(x *Exit, val *Term, method string, target *Term) bool {
	if val.Op != "iface" || val.Typ == nil || strip(val) == target {
		return true
	}
	fn := r.E.P.Prog.LookupMethod(val.Typ, nil, method)
	if fn == nil || len(fn.Blocks) == 0 {
		return true
	}
	args := r.E.Params(fn)
	args[0] = val.Args[0]
	for _, y := range r.E.runFunc(x.St.clone(), fn, args, nil, nil, x.Pos) {
		if y.Kind != "return" {
			continue
		}
		if find(y.events()[len(x.events()):], func(ev *Event) bool {
			return strings.HasSuffix(ev.Callee, "."+method) && ev.arg(0) == target
		}) == nil {
			return false
		}
	}
	return true
}

func badLevel(callee string, r *Run, x *Exit, a *Term) string {
	a = strip(a)
	in := func(lo, hi int64) string {
		if a.isInt() && (a.intVal() < lo || a.intVal() > hi) {
			return "the compression level is not one the library supports: " + a.String()
		}
		return ""
	}
	switch callee {
	case "compress/gzip.NewWriterLevel", "github.com/klauspost/pgzip.NewWriterLevel":
		return in(-2, 9)
	case "github.com/andybalholm/brotli.NewWriterLevel":
		return in(0, 11)
	}
	return ""
}

func (c *Ctx) decoder(r *Run, x *Exit, allowed []string, src *Term, label string) {
	out := strip(x.Results[0])
	if len(allowed) == 0 {
		c.Check(readsAll(out, src), r, x, nil, "decoder "+label, "without compression the source itself must be read")
		return
	}
	var dec *Event
	for _, ev := range x.events() {
		for k := range ev.Args {
			if ev.arg(k) != nil && ev.arg(k).hasDeep(src) {
				if dec == nil {
					dec = ev
				} else if ev.arg(k) == src {
					c.Check(false, r, x, ev, "source "+label, "something else than the decoder reads the source")
				}
			}
		}
	}
	if !c.Check(dec != nil && dec.is(allowed...), r, x, dec, "decoder "+label, "the source is not read by a decoder of this format") {
		return
	}
	whole := false
	for k := range dec.Args {
		if readsAll(dec.arg(k), src) {
			whole = true
		}
	}
	c.Check(whole, r, x, dec, "source "+label, "the decoder does not read the whole source")
	c.Check(readsAll(out, dec.Results[0]), r, x, dec, "decoder "+label, "what is returned is not everything the decoder produces")
	for _, ev := range x.events() {
		for _, a := range ev.Args {
			a.containsDeep(func(t *Term) bool {
				if t.Op == "res" && t.Ev != nil && (strings.Contains(t.Ev.Callee, "MaxWindow") || strings.Contains(t.Ev.Callee, "MaxMemory")) {
					c.Check(false, r, x, ev, "limits "+label, "the decoder is limited, so it cannot read everything that can be written")
				}
				return false
			})
		}
		if strings.Contains(ev.Callee, "MaxWindow") || strings.Contains(ev.Callee, "MaxMemory") {
			c.Check(false, r, x, ev, "limits "+label, "the decoder is limited, so it cannot read everything that can be written")
		}
	}
}

// ---- suffixes ------------------------------------------------------------------

func suffixes(c *Ctx) {
	encs := []string{"", c.constStr("pkg/config", "EncryptionFormatAgeKey"), c.constStr("pkg/config", "EncryptionFormatPGPKey")}
	for _, f := range sortedKeys(c.zipFormats()) {
		for _, e := range encs {
			a := c.runWith("internal/suffix", "AddSuffix", map[int]func(*Engine) *Term{0: cr("N"), 1: cs(f), 2: cs(e)})
			if a == nil {
				return
			}
			some := false
			for _, x := range a.Exits {
				if !c.Check(x.Kind == "return" && a.mayOk(x), a, x, nil, "adds "+f+"+"+e, "the name of a supported pipeline cannot be made") {
					continue
				}
				some = true
				full := strip(x.Results[0])
				n, ok := unspell(full)
				if !c.Check(ok && strings.HasPrefix(n, "N"), a, x, nil, "adds "+f+"+"+e, "the name of an entry is changed in more than its suffix: "+full.String()) {
					continue
				}
				c.Check((n != "N") == (f != "" || e != ""), a, x, nil, "adds "+f+"+"+e, "the suffix does not tell whether content is encoded")
				rm := c.runWith("internal/suffix", "RemoveSuffix", map[int]func(*Engine) *Term{0: func(e *Engine) *Term { return e.spell(n) }, 1: cs(f), 2: cs(e)})
				if rm == nil {
					return
				}
				for _, y := range rm.Exits {
					got, ok := "", false
					if y.Kind == "return" && rm.mayOk(y) {
						got, ok = unspell(y.Results[0])
					}
					c.Check(ok && got == "N", rm, y, nil, "removes "+f+"+"+e, "removing the suffix of a pipeline does not restore the name: "+got)
				}
			}
			c.Check(some, a, nil, nil, "adds "+f+"+"+e, "the name of a supported pipeline cannot be made")
		}
	}
}

// ---- keys ------------------------------------------------------------------------

func (c *Ctx) ageKeyFns() (string, string) {
	return "filippo.io/age.ParseX25519Identity", "filippo.io/age.ParseX25519Recipient"
}

// keyParse decides the parsing half of C18.
func keyParse(c *Ctx) {
	age, pgp := c.constStr("pkg/config", "EncryptionFormatAgeKey"), c.constStr("pkg/config", "EncryptionFormatPGPKey")
	mini, spgp := c.sigFormats()
	pid, prc := c.ageKeyFns()

	// private halves
	for _, fc := range []struct{ fn, format string }{{"ParseIdentity", age}, {"ParseIdentity", pgp}, {"ParseSignerIdentity", mini}, {"ParseSignerIdentity", spgp}} {
		for _, pwEmpty := range []bool{true, false} {
			var keys []*Term // the private keys of the key ring
			r := c.Run("pkg/keys", "", fc.fn, RunOpt{Visits: 4, MaxItems: 200000, Inline: allInline, Setup: func(r *Run, st *State) {
				r.Args[0] = r.E.mkStr(fc.format)
				r.E.assume(st, r.E.eq(r.Args[2], r.E.mkStr("")), pwEmpty)
				r.E.Override = func(ev *Event, slot int, typ types.Type) *Term {
					if !ev.is(pgpPkg+".ReadKeyRing") || slot != 0 {
						return nil
					}
					els := []*Term{r.E.mkNil()}
					for i := 0; i < 2; i++ {
						els = append(els, r.E.sym("entity"+itoa3(i), sliceElem(typ)))
					}
					return r.E.tt.mk("app", "append", typ, els...)
				}
			}, Observe: func(e *Engine, ev *Event, st *State) {
				if !ev.is(pgpPkg + ".ReadKeyRing") {
					return
				}
				els, ok := e.elemsOf(ev.Results[0])
				if !ok {
					return
				}
				keys = nil
				for _, en := range els {
					pk := nameVar(en.Typ, "PrivateKey")
					sk := nameVar(en.Typ, "Subkeys")
					if pk == nil || sk == nil {
						continue
					}
					e.assume(st, e.eq(en, e.mkNil()), false)
					keys = append(keys, e.load(st, e.fieldAddr(en, pk), pk.Type()))
					subs := []*Term{e.mkNil()}
					for j := 0; j < 2; j++ {
						sub := e.sym(en.Name+".sub"+itoa3(j), sliceElem(sk.Type()))
						subs = append(subs, sub)
						keys = append(keys, e.field(sub, "PrivateKey", pk.Type()))
					}
					e.store(st, e.fieldAddr(en, sk), e.tt.mk("app", "append", sk.Type(), subs...))
				}
			}})
			if r == nil {
				return
			}
			priv, pw := r.param(1), r.param(2)
			label := fc.format
			if pwEmpty {
				label += " without password"
			}
			some := false
			for _, x := range r.Exits {
				if x.Kind == "cut" {
					continue
				}
				if !c.Check(x.Kind == "return", r, x, nil, "no panic "+label, "a malformed key crashes the process") || !r.mayOk(x) {
					continue
				}
				some = true
				out := strip(x.Results[0])
				evs := x.events()
				if fc.fn == "ParseSignerIdentity" && fc.format == mini {
					ev := find(evs, named("aead.dev/minisign.DecryptKey"))
					c.Check(ev != nil && strip(ev.arg(0)) == pw && ev.arg(1) == priv && out.hasDeep(ev.Results[0]), r, x, ev, "key of "+label, "the key is not exactly the given one, decrypted with the given password")
					continue
				}
				if fc.format == age && fc.fn == "ParseIdentity" {
					ev := find(evs, named(pid))
					if !c.Check(ev != nil && out == ev.Results[0], r, x, ev, "key of "+label, "the result is not the parsed key") {
						continue
					}
					if pwEmpty {
						c.Check(ev.arg(0) == priv, r, x, ev, "key of "+label, "the key which is parsed is not the given one")
						continue
					}
					d := find(evs, named(ageDecrypt))
					id := find(evs, named("filippo.io/age.NewScryptIdentity"))
					good := d != nil && id != nil && id.arg(0) == pw && readsAll(d.arg(0), priv) && d.snap(1).hasDeep(id.Results[0]) && r.isNilOn(x, d.err()) == 1
					c.Check(good, r, x, d, "password of "+label, "the key is not decrypted with the given password")
					c.Check(good && derivedFrom(x, ev.arg(0), d.Results[0]) && ev.arg(0) != priv, r, x, ev, "key of "+label, "the key which is parsed is not the decrypted one")
					continue
				}
				// OpenPGP
				ev := find(evs, named(pgpPkg+".ReadKeyRing"))
				if !c.Check(ev != nil && readsAll(ev.arg(0), priv) && out == strip(ev.Results[0]), r, x, ev, "key of "+label, "the result is not the key ring which was given") {
					continue
				}
				c.Ob(r.Name, "private keys "+label)
				for _, k := range keys {
					unlocked := false
					for _, d := range evs {
						if d.is("(*"+pgpPkg+"/packet.PrivateKey).Decrypt") && sameKey(d.arg(0), k) {
							if strip(d.arg(1)) == pw && r.isNilOn(x, d.err()) == 1 {
								unlocked = true
							} else if strip(d.arg(1)) != pw {
								c.Check(false, r, x, d, "password of "+label, "the key is decrypted with something else than the given password")
							}
						}
					}
					if !unlocked {
						// a key that is not locked needs no password
						if nv := nameVar(k.Typ, "Encrypted"); nv != nil {
							unlocked = r.fact(x, r.E.load(x.St, r.E.fieldAddr(k, nv), nv.Type())) == -1
						}
					}
					c.Check(unlocked, r, x, nil, "locked keys of "+label, "a key of the ring is handed out while it is still locked, so the wrong password is accepted and the key cannot be used: "+k.String())
				}
			}
			c.Check(some, r, nil, nil, "parses "+label, "no key of a supported format can be parsed")
			c.errDiscipline(r, func(ev *Event, x *Exit) bool { return false })
		}
	}

	// public halves
	for _, fc := range []struct{ fn, format string }{{"ParseRecipient", age}, {"ParseRecipient", pgp}, {"ParseSignerRecipient", mini}, {"ParseSignerRecipient", spgp}} {
		r := c.Run("pkg/keys", "", fc.fn, RunOpt{Inline: allInline, Setup: func(r *Run, st *State) { r.Args[0] = r.E.mkStr(fc.format) }})
		if r == nil {
			return
		}
		some := false
		for _, x := range r.Exits {
			if x.Kind == "cut" {
				continue
			}
			if !c.Check(x.Kind == "return", r, x, nil, "no panic "+fc.format, "a malformed key crashes the process") || !r.mayOk(x) {
				continue
			}
			some = true
			out := strip(x.Results[0])
			var ev *Event
			good := false
			switch {
			case fc.fn == "ParseSignerRecipient" && fc.format == mini:
				ev = find(x.events(), named("(*aead.dev/minisign.PublicKey).UnmarshalText"))
				good = ev != nil && ev.arg(1) == r.param(1) && r.isNilOn(x, ev.err()) == 1 && out.hasDeep(r.E.load(x.St, ev.arg(0), ptrElem(ev.arg(0).Typ)))
			case fc.format == age && fc.fn == "ParseRecipient":
				ev = find(x.events(), named(prc))
				good = ev != nil && ev.arg(0) == r.param(1) && out == ev.Results[0]
			default:
				ev = find(x.events(), named(pgpPkg+".ReadKeyRing"))
				good = ev != nil && readsAll(ev.arg(0), r.param(1)) && out == ev.Results[0]
			}
			c.Check(good, r, x, ev, "public key of "+fc.format, "the result is not the key which was given")
		}
		c.Check(some, r, nil, nil, "parses "+fc.format, "no public key of a supported format can be parsed")
		c.errDiscipline(r, nil)
	}
}

func allInline(fn *ssa.Function) bool { return true }

func sameKey(a, b *Term) bool {
	return a == strip(b) || a != nil && b != nil && a.String() == strip(b).String()
}

// keygen decides the generating half of C18.
func keygen(c *Ctx) {
	age, pgp := c.constStr("pkg/config", "EncryptionFormatAgeKey"), c.constStr("pkg/config", "EncryptionFormatPGPKey")
	mini, spgp := c.sigFormats()
	type kc struct{ enc, sig string }
	for _, k := range []kc{{age, ""}, {pgp, ""}, {"", mini}, {"", spgp}, {age, mini}, {pgp, spgp}} {
		for _, pwEmpty := range []bool{true, false} {
			var pw *Term
			r := c.Run("pkg/utility", "", "Keygen", RunOpt{Inline: allInline, Setup: func(r *Run, st *State) {
				r.Args[0] = r.E.with(r.E.zero(r.Fn.Params[0].Type()), []string{"Encryption", "Signature"}, []*Term{r.E.mkStr(k.enc), r.E.mkStr(k.sig)})
				pw = strip(r.E.field(r.Args[1], "Password", types.Typ[types.String]))
				r.E.assume(st, r.E.eq(pw, r.E.mkStr("")), pwEmpty)
			}})
			if r == nil {
				return
			}
			label := k.enc + "/" + k.sig
			if pwEmpty {
				label += " without password"
			}
			some := false
			for _, x := range r.Exits {
				if x.Kind == "cut" {
					continue
				}
				if !c.Check(x.Kind == "return", r, x, nil, "no panic "+label, "generating a key crashes the process") || !r.mayOk(x) {
					continue
				}
				some = true
				evs := x.events()
				priv, pub := strip(x.Results[0]), strip(x.Results[1])
				switch {
				case k.enc == age:
					id := find(evs, named("filippo.io/age.GenerateX25519Identity"))
					if !c.Check(id != nil, r, x, nil, "pair of "+label, "no key pair is generated") {
						continue
					}
					secret := func(t *Term) bool {
						return t.isApp("(*filippo.io/age.X25519Identity).String") && t.hasDeep(id.Results[0])
					}
					c.Check(pub.isApp("(*filippo.io/age.X25519Recipient).String") && pub.hasDeep(id.Results[0]), r, x, nil, "public key of "+label, "the public key does not belong to the private key")
					if pwEmpty {
						c.Check(secret(priv), r, x, nil, "private key of "+label, "the private key is not the generated one: "+priv.String())
						continue
					}
					en := find(evs, named(ageEncrypt))
					rc := find(evs, named("filippo.io/age.NewScryptRecipient"))
					if !c.Check(en != nil && rc != nil && rc.arg(0) == pw && en.snap(1).hasDeep(rc.Results[0]), r, x, en, "password of "+label, "the private key is not encrypted with exactly the given password") {
						continue
					}
					wr, cl := -1, -1
					for i, ev := range evs {
						if ev.arg(0) != en.Results[0] {
							continue
						}
						if len(ev.Args) > 1 && (secret(ev.arg(1)) || ev.arg(1).isApp("reader") && secret(ev.arg(1).Args[0])) {
							wr = i
						}
						if strings.HasSuffix(ev.Callee, ".Close") {
							cl = i
						}
					}
					used := -1
					for i, ev := range evs {
						if len(ev.Args) > 0 && ev.arg(0) == en.arg(0) && len(ev.Results) > 0 && priv.hasDeep(ev.Results[0]) {
							used = i
						}
					}
					c.Check(wr >= 0 && cl > wr && used > cl && priv.hasDeep(en.arg(0)), r, x, en, "private key of "+label, "the private key is not the complete encryption of the generated one")
				case k.sig == mini && k.enc == "":
					g := find(evs, named("aead.dev/minisign.GenerateKey"))
					en := find(evs, named("aead.dev/minisign.EncryptKey"))
					if !c.Check(g != nil && en != nil && en.arg(0) == pw && en.arg(1) == g.Results[1] && priv == en.Results[0], r, x, en, "password of "+label, "the private key is not the generated one, encrypted with exactly the given password") {
						continue
					}
					c.Check(randReader(g.arg(0)), r, x, g, "randomness of "+label, "keys are not generated from the system's randomness")
					c.Check(pub.hasDeep(g.Results[0]) && (strings.Contains(appName(pub), "String") || strings.Contains(appName(pub), "MarshalText") || pub.Op == "res"), r, x, nil, "public key of "+label, "the public key does not belong to the private key")
				default:
					g := find(evs, func(ev *Event) bool { return strings.HasSuffix(ev.Callee, "helper.GenerateKey") })
					if !c.Check(g != nil && g.arg(2) == pw, r, x, g, "password of "+label, "the key is not locked with exactly the given password") {
						continue
					}
					own := func(t *Term) bool { return t.hasDeep(g.Results[0]) }
					c.Check(own(priv) && deepCallee(priv, ".Serialize"), r, x, nil, "private key of "+label, "the private key is not the generated one: "+priv.String())
					c.Check(own(pub) && deepCallee(pub, ".GetPublicKey"), r, x, nil, "public key of "+label, "the public key does not belong to the private key: "+pub.String())
					for _, ev := range evs {
						c.Check(!strings.HasSuffix(ev.Callee, ".Unlock"), r, x, ev, "locked "+label, "the private key is handed out unlocked")
					}
				}
			}
			c.Check(some, r, nil, nil, "generates "+label, "no key of a supported format can be generated")
			c.errDiscipline(r, nil)
		}
	}
}

func randReader(t *Term) bool {
	return t != nil && (t.isNil() || t.containsDeep(func(s *Term) bool { return strings.Contains(s.Name, "crypto/rand.Reader") }))
}

func deepCallee(t *Term, suffix string) bool {
	return t.containsDeep(func(s *Term) bool {
		return s.Op == "res" && s.Ev != nil && strings.HasSuffix(s.Ev.Callee, suffix) || s.Op == "app" && strings.HasSuffix(s.Name, suffix)
	})
}

// encodingPairs: the text form one function writes is the one its counterpart
// reads, for every format.
func encodingPairs(c *Ctx) {
	mini, pgp := c.sigFormats()
	enc := c.encFamily(true)
	for _, p := range []struct {
		pkg, write, read string
		idx              int
		formats          []string
	}{
		{"pkg/signature", "SignString", "VerifyString", 2, []string{mini, pgp}},
		{"pkg/signature", "Sign", "Verify", 2, []string{mini, pgp}},
		{"pkg/encryption", "EncryptString", "DecryptString", 1, sortedKeys(enc)},
	} {
		for _, f := range p.formats {
			if f == "" {
				continue
			}
			w := c.runWith(p.pkg, p.write, map[int]func(*Engine) *Term{p.idx: cs(f)})
			r := c.runWith(p.pkg, p.read, map[int]func(*Engine) *Term{p.idx: cs(f)})
			if w == nil || r == nil {
				return
			}
			we, re := w.encodings("EncodeToString"), r.encodings("DecodeString")
			c.Check(len(we) == 1, w, nil, nil, "encoding of "+f, "the text form of what is written is not one fixed encoding: "+strings.Join(we, ", "))
			c.Check(strings.Join(we, ",") == strings.Join(re, ","), r, nil, nil, "encoding of "+f, "what is written as "+strings.Join(we, ", ")+" is read as "+strings.Join(re, ", "))
		}
	}
}

// encodings: the base64 alphabets a function's successful paths use.
func (r *Run) encodings(method string) []string {
	seen := map[string]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.Op == "app" && strings.HasPrefix(t.Name, "(*encoding/base64.Encoding)."+method) && len(t.Args) > 0 {
			seen[t.Args[0].String()] = true
		}
		return false
	}
	see := func(x *Exit) {
		for _, t := range x.Results {
			t.containsDeep(walk)
		}
		for _, ev := range x.events() {
			for i, a := range ev.Args {
				a.containsDeep(walk)
				if i < len(ev.Snap) && ev.Snap[i] != nil {
					ev.Snap[i].containsDeep(walk)
				}
			}
		}
	}
	for _, x := range r.okExits() {
		see(x)
		for _, t := range x.Results {
			if fn, ok := r.funcOf(t); ok && fn.Fn != nil {
				for _, y := range r.E.runFunc(x.St.clone(), fn.Fn, nil, fn.Args, nil, x.Pos) {
					if y.Kind == "return" && (len(y.Results) == 0 || r.isNilOn(y, y.Results[len(y.Results)-1]) != -1) {
						see(y)
					}
				}
			}
		}
	}
	return sortedKeys(seen)
}

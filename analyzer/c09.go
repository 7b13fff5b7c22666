package main

import (
	"fmt"
	"strings"
)

func init() {
	notes["C09"] = "Decided: everything that reaches the tar writer is the output of EncryptHeader (headers) or flows through Encrypt (content) with the configured format and recipient; EncryptHeader/EncryptString/Encrypt let nothing but sizes and the fixed wrapper through when a format is selected; decryption needs the caller's identity and has no fallback. Not decided: the cryptographic strength of age and OpenPGP."
	register("C09", "header-encrypted", "Every header handed to the tar writer is exactly what EncryptHeader made of it, with the configured format and recipient.", c09Headers)
	register("C09", "writer-confined", "The tar writer of an operation only ever receives headers and the output of Encrypt called with the configured format and recipient.", c09Writer)
	register("C09", "single-writer", "Every call of tar.Writer.WriteHeader in the repository lies on an analysed path of an exported Operations method.", c09Sites)
	reg("C01 C03 C04 C05 C06 C09", "encrypt-header", "EncryptHeader replaces the header by one that carries only the size and the encrypted original whenever a format is selected.", c09EncryptHeader)
	reg("C03 C09 C18", "encrypt-string", "EncryptString returns the base64 of an encryptor's output, the plaintext goes nowhere else, and the format selects the encryptor.", c09EncryptString)
	reg("C03 C09 C18", "encrypt-stream", "Encrypt returns the selected library's encryptor for the given recipient over the destination.", c09Encrypt)
	reg("C01 C03 C09 C18", "decrypt-needs-key", "Decrypt, DecryptString and DecryptHeader succeed for a selected format only with plaintext the library produced for the given identity.", c09Decrypt)
}

func c09Headers(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			for i, ev := range evs {
				if !ev.is(tarWriteHeader) {
					continue
				}
				_, enc := lastBefore(evs, i, named("pkg/encryption.EncryptHeader"))
				if enc == nil || !isOut(ev.snap(1), enc, 0) {
					c.Check(false, r, x, ev, "header content", "the header written to the tape is not (exactly) what EncryptHeader produced")
					continue
				}
				c.Check(r.isCfg(enc.arg(1), "PipeConfig", "Encryption"), r, x, enc, "encryption format", "EncryptHeader is not called with the configured encryption format")
				c.Check(r.isCfg(enc.arg(2), "CryptoConfig", "Recipient"), r, x, enc, "recipient", "EncryptHeader is not called with the configured recipient")
				c.Check(r.at(ev, r.E.eq(enc.err(), r.E.mkNil())) == 1, r, x, ev, "EncryptHeader error", "the header is written although EncryptHeader may have failed")
			}
		}
	}
}

func c09Writer(c *Ctx) {
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			evs := x.events()
			var tws []*Term
			for _, ev := range evs {
				if ev.is(tarNewWriter) {
					tws = append(tws, ev.Results[0])
					continue
				}
				for _, tw := range tws {
					use := false
					for i, a := range ev.Args {
						if a.has(tw) || i < len(ev.Snap) && ev.Snap[i] != nil && ev.Snap[i] != tw && ev.Snap[i].has(tw) {
							use = true
						}
					}
					if !use {
						continue
					}
					switch ev.Callee {
					case tarWriteHeader, "(*archive/tar.Writer).Close", "(*archive/tar.Writer).Flush", "pkg/recovery.Index":
						c.Ob(r.Name, ev.Callee)
					case "pkg/encryption.Encrypt":
						ok := r.isCfg(ev.arg(1), "PipeConfig", "Encryption") && r.isCfg(ev.arg(2), "CryptoConfig", "Recipient")
						c.Check(ok, r, x, ev, "content encryption", "content is encrypted with something other than the configured format and recipient")
					default:
						if ev.Kind != "call" {
							continue
						}
						c.Check(false, r, x, ev, "tar writer reaches "+ev.Callee, "the tar writer is used by something other than Encrypt, so data can reach the tape in clear")
					}
				}
			}
		}
	}
}

func c09Sites(c *Ctx) {
	seen := map[string]bool{}
	for _, r := range c.opsWriters() {
		for _, x := range r.Exits {
			for _, ev := range x.events() {
				if ev.is(tarWriteHeader) {
					seen[c.P.At(ev.Pos)] = true
				}
			}
		}
	}
	for _, ci := range c.callSites(func(n string) bool { return n == tarWriteHeader }) {
		fn := ci.Parent()
		if strings.HasPrefix(fnPkg(fn), "examples") {
			continue
		}
		at := c.P.At(ci.Pos())
		c.Ob(fnName(fn), tarWriteHeader)
		if !seen[at] {
			c.Fail(fnName(fn), "unanalysed WriteHeader", at, "a header is written to a tar stream outside the analysed operations", nil)
		}
	}
}

func c09EncryptHeader(c *Ctx) {
	r := c.Run("pkg/encryption", "", "EncryptHeader", RunOpt{Key: "enc"})
	if r == nil {
		return
	}
	emb := c.constStr("internal/records", "STFSRecordEmbeddedHeader")
	hdr, format, recipient := r.param(0), r.param(1), r.param(2)
	for _, x := range r.okExits() {
		if r.eqStr(x, format, "") == 1 {
			continue
		}
		final := r.E.snapshot(x.St, hdr, ptrElem(hdr.Typ))
		fs, ok := structFields(final)
		if !c.Check(ok, r, x, nil, "header replaced", "a successful return leaves (part of) the original header in place although an encryption format is selected: "+final.String()) {
			continue
		}
		for n, v := range fs {
			switch n {
			case "Format":
				c.Check(v.isInt(), r, x, nil, "field Format", "the outer header's Format is not a constant: "+v.String())
			case "Size":
				_, f, _ := fieldOf(v)
				c.Check(f == "Size" && rootOf(v) == hdr || v.isInt(), r, x, nil, "field Size", "the outer header's Size is not the record's size: "+v.String())
			case "PAXRecords":
				ks, vs, exact := mapPairs(v)
				if !c.Check(exact && len(ks) == 1 && ks[0] == emb, r, x, nil, "field PAXRecords", "the outer header's PAX records are not exactly the embedded header: "+v.String()) {
					continue
				}
				es := find(x.events(), named("pkg/encryption.EncryptString"))
				good := es != nil && vs[0] == es.Results[0] && es.arg(1) == format && es.arg(2) == recipient && r.isNilOn(x, es.err()) == 1
				c.Check(good, r, x, es, "embedded header", "the embedded header is not the successful EncryptString of the original header with the given format and recipient: "+vs[0].String())
				if es != nil {
					a := es.arg(0)
					c.Check(a.isApp("json") && a.Args[0].Op == "deref" && a.Args[0].Args[0] == hdr, r, x, es, "embedded content", "what is embedded is not the complete original header")
				}
			default:
				c.Check(false, r, x, nil, "field "+n, "the outer header still carries "+n+" in clear: "+v.String())
			}
		}
		c.Check(fs["Size"] != nil && !fs["Size"].isInt(), r, x, nil, "size", "the outer header does not announce the length of the content that follows")
		_, has := fs["PAXRecords"]
		c.Check(has, r, x, nil, "embedded header present", "the outer header carries no embedded header")
	}
}

var ageEncrypt, pgpEncrypt = "filippo.io/age.Encrypt", "github.com/ProtonMail/go-crypto/openpgp.Encrypt"
var ageDecrypt, pgpDecrypt = "filippo.io/age.Decrypt", "github.com/ProtonMail/go-crypto/openpgp.ReadMessage"

func (c *Ctx) encFamily(encrypt bool) map[string]string {
	a, p := ageEncrypt, pgpEncrypt
	if !encrypt {
		a, p = ageDecrypt, pgpDecrypt
	}
	return map[string]string{c.constStr("pkg/config", "EncryptionFormatAgeKey"): a, c.constStr("pkg/config", "EncryptionFormatPGPKey"): p, "": "none"}
}

// keyArg: the argument is the caller's key, at most type-asserted.
func keyArg(t, key *Term) bool {
	t = strip(t)
	for t != nil && t.Op == "app" && strings.HasPrefix(t.Name, "assert[") {
		t = strip(t.Args[0])
	}
	if t == strip(key) {
		return true
	}
	if t.isApp("list") {
		for _, a := range t.Args {
			if !keyArg(a, key) {
				return false
			}
		}
		return len(t.Args) > 0
	}
	return false
}

func c09EncryptString(c *Ctx) {
	fam := c.encFamily(true)
	c.eachFormat("pkg/encryption", "EncryptString", 1, sortedKeys(fam), func(r *Run, f string) { c.c09EncryptStringOf(r, f, fam[f]) })
}

func (c *Ctx) c09EncryptStringOf(r *Run, f, want string) {
	src, recipient := r.param(0), r.param(2)
	seen := false
	for _, x := range r.okExits() {
		seen = true
		out := x.Results[0]
		if want == "none" {
			c.Check(out == src, r, x, nil, "no encryption", "without encryption the string must come back unchanged")
			continue
		}
		evs := x.events()
		enc := find(evs, named(want))
		if !c.Check(enc != nil, r, x, nil, "encryptor for "+f, "no call of "+want+" on a successful path for this format") {
			continue
		}
		keyOk := keyArg(enc.snap(1), recipient)
		c.Check(keyOk, r, x, enc, "recipient for "+f, "the data is not encrypted to the given recipient")
		c.Check(!out.has(src), r, x, nil, "result for "+f, "the result still contains the plaintext: "+out.String())
		buf := enc.arg(0)
		c.Check(isBase64Of(out, buf), r, x, nil, "encoding for "+f, "the result is not the base64 encoding of what the encryptor wrote: "+out.String())
		wrote, closed := -1, -1
		for i, ev := range evs {
			for k, a := range ev.Args {
				if !(a.has(src) || k < len(ev.Snap) && ev.Snap[k] != nil && ev.Snap[k].has(src)) {
					continue
				}
				good := k > 0 && ev.arg(0) == enc.Results[0]
				if good {
					wrote = i
				}
				c.Check(good, r, x, ev, "plaintext flow for "+f, "the plaintext flows somewhere other than into the encryptor")
			}
			if ev.Callee == "(io.Closer).Close" || strings.HasSuffix(ev.Callee, ".Close") {
				if ev.arg(0) == enc.Results[0] {
					closed = i
				}
			}
		}
		c.Check(wrote >= 0 && closed > wrote, r, x, nil, "encryptor closed for "+f, "the encryptor is not written to and then closed before its output is used")
	}
	c.Check(seen, r, nil, nil, "format "+f, "a supported encryption format has no successful path")
	c.errDiscipline(r, nil)
}

// isBase64Of: t is the standard base64 text of the bytes collected in buf.
func isBase64Of(t, buf *Term) bool {
	t = strip(t)
	if t == nil || t.Op != "app" || t.Name != "(*encoding/base64.Encoding).EncodeToString" {
		return false
	}
	return t.containsDeep(func(x *Term) bool { return x == buf })
}

func c09Encrypt(c *Ctx) {
	fam := c.encFamily(true)
	c.eachFormat("pkg/encryption", "Encrypt", 1, sortedKeys(fam), func(r *Run, f string) { c.c09EncryptOf(r, f, fam[f]) })
}

func (c *Ctx) c09EncryptOf(r *Run, f, want string) {
	dst, recipient := r.param(0), r.param(2)
	seen := false
	for _, x := range r.okExits() {
		seen = true
		out := strip(x.Results[0])
		if want == "none" {
			sn := r.E.argSnap(x.St, out)
			c.Check(out.has(dst) || sn != nil && sn.has(dst), r, x, nil, "no encryption", "without encryption the destination itself must be returned")
			continue
		}
		enc := find(x.events(), named(want))
		if !c.Check(enc != nil && out == enc.Results[0], r, x, enc, "encryptor for "+f, "the returned writer is not the "+want+" encryptor: "+out.String()) {
			continue
		}
		c.Check(enc.arg(0) == dst, r, x, enc, "destination for "+f, "the encryptor does not write to the given destination")
		c.Check(keyArg(enc.snap(1), recipient), r, x, enc, "recipient for "+f, "the data is not encrypted to the given recipient")
	}
	c.Check(seen, r, nil, nil, "format "+f, "a supported encryption format has no successful path")
	c.errDiscipline(r, nil)
}

func c09Decrypt(c *Ctx) {
	fam := c.encFamily(false)
	for _, name := range []string{"Decrypt", "DecryptString"} {
		c.eachFormat("pkg/encryption", name, 1, sortedKeys(fam), func(r *Run, f string) { c.decryptOf(r, name, f, fam[f]) })
	}
	c.decryptHeader()
}

func (c *Ctx) decryptOf(r *Run, name, f, want string) {
	src, identity := r.param(0), r.param(2)
	seen := false
	for _, x := range r.okExits() {
		seen = true
		out := strip(x.Results[0])
		if want == "none" {
			c.Check(readsAll(out, src), r, x, nil, "no encryption", "without encryption the source itself must be returned")
			continue
		}
		dec := find(x.events(), named(want))
		if !c.Check(dec != nil, r, x, nil, "decryptor for "+f, "a successful path for this format does not call "+want) {
			continue
		}
		c.Check(keyArg(dec.snap(1), identity), r, x, dec, "identity for "+f, "the data is not decrypted with the given identity")
		c.Check(dec.arg(0).hasDeep(src), r, x, dec, "ciphertext for "+f, "the decryptor does not read the given data")
		c.Check(r.isNilOn(x, dec.err()) == 1, r, x, dec, "decryptor error for "+f, "success although decryption failed")
		c.Check(!out.has(src), r, x, nil, "result for "+f, "the undecrypted input is returned: "+out.String())
		c.Check(derivedFrom(x, out, dec.Results[0]), r, x, nil, "plaintext for "+f, "the result is not what the decryptor produced: "+out.String())
	}
	c.Check(seen, r, nil, nil, "format "+f, "a supported encryption format has no successful path")
	c.errDiscipline(r, nil)
}

func (c *Ctx) decryptHeader() {
	r := c.Run("pkg/encryption", "", "DecryptHeader", RunOpt{Key: "enc"})
	if r == nil {
		return
	}
	emb := c.constStr("internal/records", "STFSRecordEmbeddedHeader")
	hdr, format, identity := r.param(0), r.param(1), r.param(2)
	some := false
	for _, x := range r.okExits() {
		if r.eqStr(x, format, "") == 1 {
			continue
		}
		some = true
		final := r.E.load(x.St, hdr, ptrElem(hdr.Typ))
		ds := find(x.events(), named("pkg/encryption.DecryptString"))
		if !c.Check(ds != nil, r, x, nil, "DecryptString", "a successful return for an encrypted header does not decrypt the embedded header") {
			continue
		}
		c.Check(ds.arg(1) == format && ds.arg(2) == identity, r, x, ds, "decryption key", "the embedded header is not decrypted with the given format and identity")
		c.Check(r.isNilOn(x, ds.err()) == 1, r, x, ds, "DecryptString error", "success although the embedded header could not be decrypted")
		a := ds.arg(0)
		c.Check(a.contains(func(t *Term) bool { return t.isStr() && t.Name == emb }) && rootOfMap(a) == hdr, r, x, ds, "embedded header", "what is decrypted is not the header's embedded record: "+a.String())
		c.Check(final.isApp("unjson") && final.Args[0] == ds.Results[0] && len(final.Args) == 1 && !x.St.mapTouched(final), r, x, nil, "decrypted header", "the header does not become the decrypted embedded header: "+final.String())
	}
	c.Check(some, r, nil, nil, "encrypted path", "DecryptHeader never succeeds for an encrypted header")
	c.errDiscipline(r, nil)
}

// rootOfMap: the root of the map a looked-up value comes from.
func rootOfMap(t *Term) *Term {
	for t != nil && t.Op == "app" && len(t.Args) > 0 {
		t = strip(t.Args[0])
	}
	return rootOf(t)
}

// derivedFrom: out comes from src, directly or through a buffer that src was
// copied into.
func derivedFrom(x *Exit, out, src *Term) bool {
	if out.hasDeep(src) {
		return true
	}
	for _, ev := range x.events() {
		uses := false
		for _, a := range ev.Args {
			if a.has(src) || a.containsDeep(func(t *Term) bool { return t == src }) {
				uses = true
			}
		}
		if !uses {
			continue
		}
		for _, a := range ev.Args {
			if s := strip(a); s.Op == "alloc" && out.containsDeep(func(t *Term) bool { return t == s }) {
				return true
			}
		}
	}
	return false
}

var _ = fmt.Sprint

package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// deadline: what has not been explored by then stays undecided, which is
// reported as such.
var deadline = time.Now().Add(13 * time.Minute)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence and known findings")
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "debugging: pkg:recv:func")
	full := flag.Bool("full", false, "debugging: print every path")
	visits := flag.Int("visits", 3, "debugging: loop bound")
	flag.Parse()
	if *tier == "thorough" {
		deadline = time.Now().Add(2 * time.Hour)
	}
	if *prop == "all" {
		code := 0
		var ps []string
		for p := range registry {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			if runProperty(*repo, *verif, p, *tier) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	}
	if *prop != "" {
		os.Exit(runProperty(*repo, *verif, *prop, *tier))
	}
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if len(p.Errors) > 0 {
		fmt.Println(p.Errors)
		os.Exit(1)
	}
	if *dump != "" {
		x := strings.Split(*dump, ":")
		fn := p.Func(x[0], x[1], x[2])
		e := NewEngine(p)
		e.Inline = defaultInline
		if x[0] == "pkg/fs" {
			e.Inline = fsInline
		}
		e.MaxVisits = *visits
		ex := e.Run(fn, nil, nil)
		kinds := map[string]int{}
		for _, x := range ex {
			kinds[x.Kind]++
			if *full {
				dumpExit(e, x)
			}
		}
		fmt.Println(fnName(fn), "exits", len(ex), kinds, "items", e.items, "events", e.nevents, "terms", e.tt.n, "overflow", e.overflow)
		var us []string
		for u := range e.unknown {
			us = append(us, u)
		}
		sort.Strings(us)
		fmt.Println("unknown", us)
	}
}

// primitives are the repository's own entry points whose bodies have rules of
// their own; everything else in the repository is inlined into its caller.
var primitives = map[string]bool{
	"pkg/encryption.Encrypt": true, "pkg/encryption.Decrypt": true, "pkg/encryption.EncryptHeader": true, "pkg/encryption.DecryptHeader": true, "pkg/encryption.EncryptString": true, "pkg/encryption.DecryptString": true,
	"pkg/signature.Sign": true, "pkg/signature.Verify": true, "pkg/signature.SignHeader": true, "pkg/signature.VerifyHeader": true, "pkg/signature.SignString": true, "pkg/signature.VerifyString": true,
	"pkg/compression.Compress": true, "pkg/compression.Decompress": true,
	"pkg/recovery.Index": true, "pkg/recovery.Fetch": true, "pkg/recovery.Query": true,
	"internal/suffix.AddSuffix": true, "internal/suffix.RemoveSuffix": true,
}

// fsPrimitives are additionally opaque when a filesystem method is analysed.
var fsPrimitives = map[string]bool{
	"(*pkg/operations.Operations).Archive": true, "(*pkg/operations.Operations).Update": true, "(*pkg/operations.Operations).Delete": true, "(*pkg/operations.Operations).Move": true, "(*pkg/operations.Operations).Restore": true, "(*pkg/operations.Operations).Initialize": true,
	"(*pkg/operations.Operations).GetBackend": true, "(*pkg/operations.Operations).GetMetadata": true, "(*pkg/operations.Operations).GetPipes": true, "(*pkg/operations.Operations).GetCrypto": true,
	"pkg/inventory.Stat": true, "pkg/inventory.List": true, "pkg/inventory.Find": true,
}

func defaultInline(fn *ssa.Function) bool {
	n := fnName(fn)
	if strings.HasPrefix(n, "internal/db/") || strings.Contains(n, "internal/db/sqlite") {
		return false
	}
	return !primitives[n]
}

func fsInline(fn *ssa.Function) bool { return defaultInline(fn) && !fsPrimitives[fnName(fn)] }

// inlineExcept inlines everything but the named functions (and the generated
// database models).
func inlineExcept(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool {
		n := fnName(fn)
		return !strings.Contains(n, "internal/db/sqlite") && !m[n]
	}
}

func dumpExit(e *Engine, x *Exit) {
	fmt.Println("----", x.Kind, e.P.At(x.Pos))
	for _, ev := range x.St.trace.Events() {
		if ev.Kind == "loop" {
			fmt.Println("  ~ loop", ev.Args[0])
			continue
		}
		fmt.Println(" ", e.describe(ev))
	}
	for _, r := range x.Results {
		fmt.Println("  ->", r)
	}
	var fs []string
	for f, v := range x.St.facts {
		fs = append(fs, fmt.Sprintf("%v=%v", f, v))
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Println("  ?", f)
	}
}
